package main

// Native replay: the harness is compiled with the real toolchain against
// /repo's working tree and run on the counterexample's inputs.  A candidate
// is reported only if the real code fails the same way.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type replayer struct {
	repo, verif, prop string
	ov                map[string]string
	dir               string
	bin               string
	err               string
	n                 int
	k                 int
	tier              string
	params            map[string]int
	race              bool // the replay is built with the race detector
}

func newReplayer(repo, verif, prop string, ov map[string]string) *replayer {
	return &replayer{repo: repo, verif: verif, prop: prop, ov: ov}
}

func (r *replayer) close() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

const cryptoMod = "github.com/iden3/go-iden3-crypto"

func (r *replayer) build() {
	if r.bin != "" || r.err != "" {
		return
	}
	d, err := os.MkdirTemp("", "verifreplay")
	if err != nil {
		r.err = err.Error()
		return
	}
	r.dir = d
	ov := map[string]string{}
	for k, v := range r.ov {
		ov[k] = v
	}
	low := strings.ToLower(r.prop)
	main := filepath.Join(d, "main.go")
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\th \"github.com/iden3/go-iden3-core/verifharness/" + low + "\"\n\t\"github.com/iden3/go-iden3-core/verifharness/sym\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, f := range r.entryNames() {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", f, f)
	}
	sb.WriteString("\t})\n}\n")
	os.WriteFile(main, []byte(sb.String()), 0o644)
	ov[filepath.Join(r.repo, "verifharness", "replaymain", "main.go")] = main
	ov[filepath.Join(r.repo, "verifharness", "sym", "table.go")] = filepath.Join(r.verif, "harness", "symreplay", "table.go")
	if r.usesClock() {
		// time.Now consults the counterexample's clock
		out, err := runCmd(r.repo, append(os.Environ(), goEnv(r.verif)...), 60*time.Second, "go", "env", "GOROOT")
		if err != nil {
			r.err = "go env: " + out
			return
		}
		tf := filepath.Join(strings.TrimSpace(out), "src", "time", "time.go")
		src, _ := os.ReadFile(tf)
		s := strings.Replace(string(src), "\nfunc Now() Time {\n", "\n// VerifNow is the clock of a replay.\nvar VerifNow func() (int64, bool)\n\nfunc Now() Time {\n\tif VerifNow != nil {\n\t\tif s, ok := VerifNow(); ok {\n\t\t\treturn Unix(s, 0)\n\t\t}\n\t}\n", 1)
		nf := filepath.Join(d, "time.go")
		os.WriteFile(nf, []byte(s), 0o644)
		ov[tf] = nf
		ov[filepath.Join(r.repo, "verifharness", "sym", "clock.go")] = filepath.Join(r.verif, "harness", "symreplay", "clock.go")
	}
	if r.usesThreads("") {
		if err := r.instrument(d, ov); err != nil {
			r.err = "instrument: " + err.Error()
			return
		}
	}
	if err := r.stubs(d, ov); err != nil {
		r.err = "stubs: " + err.Error()
		return
	}
	ovf := filepath.Join(d, "overlay.json")
	// hash functions consult the counterexample's table
	env := append(os.Environ(), goEnv(r.verif)...)
	gomod, _ := os.ReadFile(filepath.Join(r.repo, "go.mod"))
	gosum, _ := os.ReadFile(filepath.Join(r.repo, "go.sum"))
	cp := filepath.Join(d, "crypto")
	out, err := runCmd(r.repo, env, 60*time.Second, "go", "list", "-m", "-f", "{{.Dir}}", cryptoMod)
	if err != nil {
		r.err = "go list: " + out
		return
	}
	orig := strings.TrimSpace(out)
	for k, v := range ov {
		if rest := strings.TrimPrefix(k, orig+"/"); rest != k {
			delete(ov, k)
			ov[filepath.Join(cp, rest)] = v
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	os.WriteFile(ovf, b, 0o644)
	if out, err := runCmd(d, env, 60*time.Second, "cp", "-r", orig, cp); err != nil {
		r.err = out
		return
	}
	runCmd(d, env, 60*time.Second, "chmod", "-R", "u+w", cp)
	pf := filepath.Join(cp, "poseidon", "poseidon.go")
	src, _ := os.ReadFile(pf)
	s := string(src)
	s = strings.Replace(s, "\tinp := utils.BigIntArrayToElementArray(inpBI[:])\n", "\tif v := VerifTable(\"poseidon\", inpBI[:]); v != nil {\n\t\treturn v, nil\n\t}\n\tinp := utils.BigIntArrayToElementArray(inpBI[:])\n", 1)
	s = strings.Replace(s, "\tr := big.NewInt(int64(1))\n\tfor i := 0; i < len(arr)", "\tif v := VerifTable(\"phash\", arr); v != nil {\n\t\treturn v, nil\n\t}\n\tr := big.NewInt(int64(1))\n\tfor i := 0; i < len(arr)", 1)
	s += "\n// VerifTable overrides the hash on the inputs of a counterexample.\nvar VerifTable = func(fn string, in []*big.Int) *big.Int { return nil }\n"
	os.WriteFile(pf, []byte(s), 0o644)
	mf := filepath.Join(d, "go.mod")
	os.WriteFile(mf, append(gomod, []byte("\nreplace "+cryptoMod+" => "+cp+"\n")...), 0o644)
	os.WriteFile(filepath.Join(d, "go.sum"), gosum, 0o644)
	bin := filepath.Join(d, "replay")
	flags := []string{"build"}
	if r.race {
		flags = append(flags, "-race")
	}
	out, err = runCmd(r.repo, env, 600*time.Second, "go", append(flags, "-modfile", mf, "-overlay", ovf, "-o", bin, "./verifharness/replaymain")...)
	if err != nil {
		r.err = "build: " + out
		return
	}
	r.bin = bin
}

// instrument makes the repository's code yield to the scheduler of vsync.
func (r *replayer) instrument(d string, ov map[string]string) error {
	hd := filepath.Join(r.repo, "verifharness")
	ov[filepath.Join(hd, "vsync", "vsync.go")] = filepath.Join(r.verif, "harness", "symreplay", "vsync", "vsync.go")
	for _, f := range []string{"race.go", "norace.go"} {
		ov[filepath.Join(hd, "vsync", f)] = filepath.Join(r.verif, "harness", "symreplay", "vsync", f)
	}
	ov[filepath.Join(hd, "sym", "sched.go")] = filepath.Join(r.verif, "harness", "symreplay", "sched.go")
	out, err := runCmd(r.repo, append(os.Environ(), goEnv(r.verif)...), 60*time.Second, "go", "list", "-e", "-f", "{{$d := .Dir}}{{range .GoFiles}}{{$d}}/{{.}}\n{{end}}", "./...")
	if err != nil {
		return fmt.Errorf("go list: %s", out)
	}
	const vs = "github.com/iden3/go-iden3-core/verifharness/vsync"
	for i, f := range strings.Fields(out) {
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return err
		}
		for _, im := range a.Imports {
			if im.Path.Value == "\"sync\"" {
				im.Path.Value = "\"" + vs + "\""
				if im.Name == nil {
					im.Name = ast.NewIdent("sync")
				}
			}
		}
		points := func(l []ast.Stmt) []ast.Stmt {
			var n []ast.Stmt
			for _, s := range l {
				n = append(n, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifsync"), Sel: ast.NewIdent("Point")}}}, s)
			}
			return n
		}
		any := false
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				any = any || len(x.List) > 0
				sw := false
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						sw = true
					}
				}
				if !sw {
					x.List = points(x.List)
				}
			case *ast.CaseClause:
				x.Body = points(x.Body)
			case *ast.CommClause:
				x.Body = points(x.Body)
			}
			return true
		})
		if any {
			sp := &ast.ImportSpec{Name: ast.NewIdent("verifsync"), Path: &ast.BasicLit{Kind: token.STRING, Value: "\"" + vs + "\""}}
			a.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{sp}}}, a.Decls...)
		}
		nf := filepath.Join(d, fmt.Sprintf("inst%d.go", i))
		w, err := os.Create(nf)
		if err != nil {
			return err
		}
		err = format.Node(w, fset, a)
		w.Close()
		if err != nil {
			return err
		}
		if any {
			// a body that consisted of the point and its statement may lack a use
			b, _ := os.ReadFile(nf)
			os.WriteFile(nf, append(b, []byte("\nvar _ = verifsync.Point\n")...), 0o644)
		}
		ov[f] = nf
	}
	return nil
}

// stubs makes the functions with a "//verif:model native" model call it in the
// replay too: they reach for files, the network or provers otherwise.
func (r *replayer) stubs(d string, ov map[string]string) error {
	root := filepath.Join(r.repo, "verifharness")
	used := map[string]bool{}
	var imports func(dir string)
	imports = func(dir string) {
		if used[dir] {
			return
		}
		used[dir] = true
		for k, f := range r.ov {
			if filepath.Dir(k) != dir {
				continue
			}
			a, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ImportsOnly)
			if err != nil {
				continue
			}
			for _, im := range a.Imports {
				p := strings.Trim(im.Path.Value, "\"")
				if q := strings.TrimPrefix(p, "github.com/iden3/go-iden3-core/verifharness/"); q != p {
					imports(filepath.Join(root, q))
				}
			}
		}
	}
	imports(filepath.Join(root, strings.ToLower(r.prop)))
	type edit struct {
		off int
		txt string
	}
	edits := map[string][]edit{}
	tails := map[string]string{}
	regs := map[string]string{}
	imps := map[string]map[string]string{}
	pkgname := map[string]string{}
	dirs := map[string]string{}
	n := 0
	for k, f := range r.ov {
		if !used[filepath.Dir(k)] {
			continue
		}
		b, _ := os.ReadFile(f)
		if !strings.Contains(string(b), "//verif:model native ") {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, b, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, dd := range a.Decls {
			fd, ok := dd.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				q := strings.TrimPrefix(c.Text, "//verif:model native ")
				if q == c.Text {
					continue
				}
				q = strings.TrimSpace(q)
				typ, fun := "", ""
				i := strings.LastIndex(q, ".")
				fun, q = q[i+1:], q[:i]
				if strings.HasPrefix(q, "(") {
					q = strings.TrimLeft(strings.Trim(q, "()"), "*")
					i = strings.LastIndex(q, ".")
					typ, q = q[i+1:], q[:i]
				}
				if dirs[q] == "" {
					out, err := runCmd(r.repo, append(os.Environ(), goEnv(r.verif)...), 60*time.Second, "go", "list", "-f", "{{.Dir}} {{range .GoFiles}}{{.}} {{end}}{{range .CgoFiles}}{{.}} {{end}}", q)
					if err != nil {
						return fmt.Errorf("go list %s: %s", q, out)
					}
					dirs[q] = out
				}
				fs := strings.Fields(dirs[q])
				found := false
				for _, g := range fs[1:] {
					p := filepath.Join(fs[0], g)
					src := p
					if ov[p] != "" {
						src = ov[p]
					}
					tb, err := os.ReadFile(src)
					if err != nil {
						return err
					}
					fset := token.NewFileSet()
					ta, err := parser.ParseFile(fset, src, tb, 0)
					if err != nil {
						return err
					}
					for _, td := range ta.Decls {
						t, ok := td.(*ast.FuncDecl)
						if !ok || t.Name.Name != fun || t.Body == nil || (t.Recv != nil) != (typ != "") {
							continue
						}
						text := func(n ast.Node) string {
							return string(tb[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
						}
						var ps, args []string
						if t.Recv != nil {
							rt := text(t.Recv.List[0].Type)
							if strings.TrimLeft(rt, "*") != typ {
								continue
							}
							ps = append(ps, rt)
							args = append(args, t.Recv.List[0].Names[0].Name)
						}
						for _, fl := range t.Type.Params.List {
							for _, nm := range fl.Names {
								ps = append(ps, text(fl.Type))
								s := nm.Name
								if _, ok := fl.Type.(*ast.Ellipsis); ok {
									s += "..."
								}
								args = append(args, s)
							}
						}
						res, ret := "", ""
						if t.Type.Results != nil {
							res, ret = "("+text(t.Type.Results)+")", "return "
							res = strings.Replace(strings.Replace(res, "((", "(", 1), "))", ")", 1)
						}
						v := fmt.Sprintf("VerifStub%d", n)
						n++
						call := fmt.Sprintf(" if %s != nil { %s%s(%s)", v, ret, v, strings.Join(args, ", "))
						if ret == "" {
							call += "; return"
						}
						edits[p] = append(edits[p], edit{fset.Position(t.Body.Lbrace).Offset + 1, call + " };"})
						tails[p] += fmt.Sprintf("\nvar %s func(%s) %s\n", v, strings.Join(ps, ", "), res)
						dir := filepath.Dir(k)
						pkgname[dir] = a.Name.Name
						if imps[dir] == nil {
							imps[dir] = map[string]string{}
						}
						if imps[dir][q] == "" {
							imps[dir][q] = fmt.Sprintf("dep%d", len(imps[dir]))
						}
						regs[dir] += fmt.Sprintf("\t%s.%s = %s\n", imps[dir][q], v, fd.Name.Name)
						found = true
					}
				}
				if !found {
					return fmt.Errorf("no function %s %s %s", q, typ, fun)
				}
			}
		}
	}
	i := 0
	for p, es := range edits {
		src := p
		if ov[p] != "" {
			src = ov[p]
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
		s := string(b)
		for _, e := range es {
			s = s[:e.off] + e.txt + s[e.off:]
		}
		nf := filepath.Join(d, fmt.Sprintf("stub%d.go", i))
		i++
		if err := os.WriteFile(nf, []byte(s+tails[p]), 0o644); err != nil {
			return err
		}
		ov[p] = nf
	}
	for dir, t := range regs {
		s := "package " + pkgname[dir] + "\n\nimport (\n"
		for q, al := range imps[dir] {
			s += fmt.Sprintf("\t%s %q\n", al, q)
		}
		s += ")\n\nfunc init() {\n" + t + "}\n"
		nf := filepath.Join(d, fmt.Sprintf("stub%d.go", i))
		i++
		if err := os.WriteFile(nf, []byte(s), 0o644); err != nil {
			return err
		}
		ov[filepath.Join(dir, "verif_stubs.go")] = nf
	}
	return nil
}

// usesThreads tells whether the harness of the property starts threads.
func (r *replayer) usesThreads(entry string) bool {
	for k, f := range r.ov {
		if filepath.Base(filepath.Dir(k)) == strings.ToLower(r.prop) {
			b, _ := os.ReadFile(f)
			s := string(b)
			if entry != "" {
				i := strings.Index(s, "\nfunc "+entry+"()")
				if i < 0 {
					continue
				}
				s = s[i+1:]
				if j := strings.Index(s, "\n}"); j >= 0 {
					s = s[:j]
				}
			}
			if strings.Contains(s, "sym.Go(") {
				return true
			}
		}
	}
	return false
}

// usesClock tells whether the harness of the property refers to the clock.
func (r *replayer) usesClock() bool {
	for k, f := range r.ov {
		if filepath.Base(filepath.Dir(k)) == strings.ToLower(r.prop) {
			b, _ := os.ReadFile(f)
			if strings.Contains(string(b), "sym.Now(") || strings.Contains(string(b), "sym.SetNow(") {
				return true
			}
		}
	}
	return false
}

func (r *replayer) entryNames() []string {
	var ns []string
	for k, f := range r.ov {
		if filepath.Base(filepath.Dir(k)) != strings.ToLower(r.prop) {
			continue
		}
		b, _ := os.ReadFile(f)
		lines := strings.Split(string(b), "\n")
		pend := false
		for _, l := range lines {
			if strings.HasPrefix(l, "//verif:entry") {
				pend = true
			} else if pend && strings.HasPrefix(l, "func ") {
				n := strings.TrimPrefix(l, "func ")
				ns = append(ns, n[:strings.IndexByte(n, '(')])
				pend = false
			}
		}
	}
	return ns
}

func runCmd(dir string, env []string, to time.Duration, name string, args ...string) (string, error) {
	path := name
	if name == "go" {
		path = "/opt/veriftools/go1.23.12/bin/go"
	}
	c := exec.Command(path, args...)
	c.Dir = dir
	c.Env = env
	var sb strings.Builder
	c.Stdout, c.Stderr = &sb, &sb
	if err := c.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		return sb.String(), err
	case <-time.After(to):
		c.Process.Kill()
		<-done
		return sb.String() + "\n[timeout]", fmt.Errorf("timeout")
	}
}

// run executes the replay, of an entry with threads under many schedules.
func (r *replayer) run(scratch string, env []string, entry string, try int) (string, error) {
	if !r.usesThreads(entry) {
		return runCmd(scratch, env, 60*time.Second, r.bin)
	}
	if try > 0 {
		return "", nil
	}
	type res struct {
		out string
		err error
	}
	const n = 6
	c := make(chan res, n)
	for i := 0; i < n; i++ {
		sd := filepath.Join(scratch, fmt.Sprintf("s%d", i))
		os.MkdirAll(sd, 0o700)
		e := append(append([]string{}, env...), fmt.Sprintf("SYM_SEED=%d", i), "SYM_SCRATCH="+sd)
		go func() {
			out, err := runCmd(sd, e, 60*time.Second, r.bin)
			c <- res{out, err}
		}()
	}
	var last res
	for i := 0; i < n; i++ {
		x := <-c
		if x.err != nil {
			return x.out, x.err
		}
		last = x
	}
	return last.out, last.err
}

// replay runs the real code; true when it fails with the same label.
func (r *replayer) replay(entry string, v violation) (bool, string, string) {
	r.build()
	if r.err != "" {
		return false, "", r.err
	}
	r.k++
	r.n++
	dir := filepath.Join(r.verif, "replays", r.prop)
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", entry, r.k))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": r.prop, "entry": entry, "label": v.Label, "where": v.Where, "tier": r.tier, "params": r.params, "inputs": v.Model, "hashes": v.Hashes, "schedule": v.Sched}, "", " ")
	os.WriteFile(f, b, 0o644)
	scratch, _ := os.MkdirTemp("", "verifscratch")
	defer os.RemoveAll(scratch)
	pj, _ := json.Marshal(r.params)
	env := append(os.Environ(), "SYM_INPUT="+f, "SYM_ENTRY="+entry, "SYM_SCRATCH="+scratch, "SYM_TIER="+r.tier, "SYM_PARAMS="+string(pj), "HOME="+scratch, "TMPDIR="+scratch)
	if strings.HasPrefix(v.Label, "data race: ") {
		env = append(env, "SYM_SECS=10")
	}
	all := ""
	tries := 3
	if strings.HasPrefix(v.Label, "data race: ") {
		tries = 2
	}
	for try := 0; try < tries; try++ {
		out, err := r.run(scratch, env, entry, try)
		if try == 0 || out != "" {
			all = out
		}
		if err == nil {
			continue
		}
		if strings.HasPrefix(v.Label, "panic: ") {
			if strings.Contains(out, "ASSUME-FAILED") {
				continue
			}
			if strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ") {
				return true, f, out
			}
			continue
		}
		if strings.HasPrefix(v.Label, "data race: ") {
			if raceIn(out) {
				return true, f, out
			}
			continue
		}
		if strings.HasPrefix(v.Label, "deadlock") {
			if strings.Contains(out, "deadlock") || strings.Contains(out, "[timeout]") {
				return true, f, out
			}
			continue
		}
		if strings.Contains(out, "ASSERT-FAILED "+v.Label+"\n") || r.usesThreads(entry) && strings.Contains(out, "ASSERT-FAILED ") {
			// with threads, any failure under some schedule of these inputs counts
			return true, f, out
		}
	}
	return false, f, all
}
