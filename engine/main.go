package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type entryCfg struct {
	name    string
	fn      *ssa.Function
	preempt int
	yields  []string
	steps   int
	maxp    int
	secs    int
	reach   []string
	tier    string // "", "quick" or "thorough": which tier runs it
	params  map[string]int
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("entry", "", "run only this entry function")
	budget := flag.Int("budget", 0, "seconds for the whole exploration")
	nw := flag.Int("j", runtime.NumCPU(), "workers")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(12 << 30)
	if f := os.Getenv("ENGINE_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		runCheck(*prop, *tier, *repo, *verif, *only, *budget, *nw, *verbose)
		return
	}
	os.Exit(runCheck(*prop, *tier, *repo, *verif, *only, *budget, *nw, *verbose))
}

func die(format string, a ...interface{}) int {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	return 2
}

func goEnv(verif string) []string {
	g := "/opt/veriftools/go1.23.12/bin"
	return []string{"PATH=" + g + ":" + os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GONOSUMDB=*", "GOFLAGS=-mod=mod", "GOWORK=off"}
}

// buildOverlay maps the harness sources into the repository's module.
func buildOverlay(repo, verif, prop string) (map[string]string, error) {
	m := map[string]string{}
	for _, d := range []string{"sym", "kit", "chain", "iden", strings.ToLower(prop)} {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", d, "*.go"))
		for _, f := range fs {
			m[filepath.Join(repo, "verifharness", d, filepath.Base(f))] = f
		}
	}
	// sub-packages of the kit (dependency models)
	subs, _ := filepath.Glob(filepath.Join(verif, "harness", "model", "*", "*.go"))
	for _, f := range subs {
		m[filepath.Join(repo, "verifharness", "model", filepath.Base(filepath.Dir(f)), filepath.Base(f))] = f
	}
	return m, nil
}

func runCheck(prop, tier, repo, verif, only string, budget, nw int, verbose bool) int {
	t0 := time.Now()
	ov, _ := buildOverlay(repo, verif, prop)
	bov := map[string][]byte{}
	for k, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return die("%v", err)
		}
		bov[k] = b
	}
	mod := "github.com/iden3/go-iden3-core/verifharness/"
	pats := []string{mod + strings.ToLower(prop)}
	e, pks, err := load(repo, bov, pats, goEnv(verif))
	if err != nil {
		// the tree does not compile with the harness: report no verdict
		return die("%v", err)
	}
	tLoad := time.Since(t0)
	hp := e.pkgs[mod+strings.ToLower(prop)]
	if hp == nil {
		return die("harness package for %s not found", prop)
	}
	hp.Build()
	e.bindModels(mod, pks)
	var entries []*entryCfg
	for _, pk := range pks {
		for _, f := range pk.Syntax {
			entries = append(entries, parseEntries(hp, f)...)
		}
	}
	sort.Slice(entries, func(i, j int) bool { return entries[i].name < entries[j].name })
	e.tier = tier
	total := &Result{Reach: map[string]int{}, Reasons: map[string]int{}}
	funcs := map[string]bool{}
	var evs []map[string]interface{}
	known := readKnown(filepath.Join(verif, "known-findings.txt"))
	exit, nviol := 0, 0
	if budget == 0 {
		budget = 240
		if tier == "thorough" {
			budget = 780
		}
	}
	end := t0.Add(time.Duration(budget) * time.Second)
	var sel []*entryCfg
	for _, en := range entries {
		if only != "" && en.name != only || only == "" && en.tier != "" && en.tier != tier {
			continue
		}
		sel = append(sel, en)
	}
	if len(sel) == 0 {
		return die("no entries for %s", prop)
	}
	rp := newReplayer(repo, verif, prop, ov)
	defer rp.close()
	rp.tier = tier
	for _, en := range sel {
		rp.race = rp.race || en.params["race"] == 1
	}
	nraces := 0 // races confirmed: the first few are enough
	for i, en := range sel {
		e.maxSteps, e.preempt, e.params = en.steps, en.preempt, en.params
		e.race = en.params["race"] == 1
		e.raceSeen.Clear()
		rp.params = en.params
		e.yieldKinds = map[string]bool{}
		for _, y := range en.yields {
			e.yieldKinds[y] = true
		}
		left := time.Until(end)
		share := left / time.Duration(len(sel)-i) * 2
		if share > left || i == len(sel)-1 {
			share = left
		}
		if en.secs > 0 && share > time.Duration(en.secs)*time.Second {
			share = time.Duration(en.secs) * time.Second
		}
		r := e.Explore(en.fn, nw, time.Now().Add(share), en.maxp)
		missing := []string{}
		for _, l := range en.reach {
			if r.Reach[l] == 0 {
				missing = append(missing, l)
			}
		}
		complete := r.Pending == 0 && r.Inconclusive == 0 && r.Aborted == 0
		fmt.Printf("%s %s: paths=%d infeasible=%d inconclusive=%d aborted=%d pending=%d asserts=%d queries=%d unknown=%d solver=%.1fs wall=%.1fs complete=%v reach=%v\n",
			prop, en.name, r.Paths, r.Infeasible, r.Inconclusive, r.Aborted, r.Pending, r.Asserts, r.Queries, r.Unknown, r.SolverS, r.Wall, complete, fmtReach(r.Reach))
		for k, v := range r.Reasons {
			fmt.Printf("  note %dx %s\n", v, k)
		}
		if len(missing) > 0 {
			fmt.Printf("  WARNING: vacuous: labels not reached: %v\n", missing)
		}
		nrepro := map[string]int{}
		notrepro := map[string]int{}
		for _, v := range r.Viols {
			key := en.name + "/" + normLabel(v.Label)
			if strings.HasPrefix(v.Label, "data race: ") && (nraces >= 3 || notrepro[key] >= 2) {
				continue
			}
			if nrepro[key] > 0 || notrepro[key] >= 4 || nviol > 0 && time.Now().After(end) || time.Since(end) > 300*time.Second {
				continue
			}
			if verbose {
				fmt.Printf("  candidate %s @ %s\n    model %v\n    hashes %d sched %v\n", v.Label, v.Where, v.Model, len(v.Hashes), v.Sched)
			}
			ok, file, out := rp.replay(en.name, v)
			if !ok {
				notrepro[key]++
				if verbose || notrepro[key] == 1 {
					fmt.Printf("  candidate not reproduced natively: %s @ %s\n    %s\n", v.Label, v.Where, tail(out, 600))
				}
				continue
			}
			nrepro[key]++
			if strings.HasPrefix(v.Label, "data race: ") {
				nraces++
			}
			if kf := known.match(prop, key); kf != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf)
				continue
			}
			fmt.Printf("  violated: %s @ %s\n    inputs %v\n", v.Label, v.Where, short(v.Model))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
			exit = 1
			nviol++
		}
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		evs = append(evs, map[string]interface{}{"entry": en.name, "paths": r.Paths, "infeasible": r.Infeasible, "inconclusive": r.Inconclusive, "aborted": r.Aborted, "unexplored": r.Pending,
			"assertions": r.Asserts, "queries": r.Queries, "unknown": r.Unknown, "solver_s": r.SolverS, "wall_s": r.Wall, "complete_within_bounds": complete, "reached": r.Reach, "not_reached": missing, "notes": r.Reasons,
			"params": en.params, "preemptions": en.preempt, "candidates_not_reproduced": len(notrepro)})
		total.Paths += r.Paths
		total.Infeasible += r.Infeasible
		total.Steps += r.Steps
		total.Asserts += r.Asserts
		total.Queries += r.Queries
		total.Unknown += r.Unknown
		total.SolverS += r.SolverS
		total.Inconclusive += r.Inconclusive
		total.Pending += r.Pending
		total.Aborted += r.Aborted
		total.Samples = append(total.Samples, r.Samples...)
	}
	if only == "" {
		writeEvidence(verif, prop, tier, total, evs, funcs, time.Since(t0).Seconds(), tLoad.Seconds(), rp.n, nviol)
	}
	fmt.Printf("%s %s tier: %d paths, %d assertions, %d solver queries (%.1fs), load %.1fs, total %.1fs, exit %d\n", prop, tier, total.Paths, total.Asserts, total.Queries, total.SolverS, tLoad.Seconds(), time.Since(t0).Seconds(), exit)
	return exit
}

func fmtReach(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s:%d ", k, m[k])
	}
	return "[" + strings.TrimSpace(s) + "]"
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func short(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		v := m[k]
		if len(v) > 64 {
			v = v[:64] + "..."
		}
		s += k + "=" + v + " "
		if len(s) > 1500 {
			s += "..."
			break
		}
	}
	return s
}

// normLabel drops data-dependent digits from panic messages.
func normLabel(s string) string {
	if strings.HasPrefix(s, "panic: ") {
		return "panic"
	}
	return s
}

type knownSet []struct{ prop, key, text string }

// known-findings.txt: "finding: property=<id> key=<entry/label> <text>"
func readKnown(f string) knownSet {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var k knownSet
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var pr, key string
		rest := strings.TrimPrefix(l, "finding: ")
		fs := strings.SplitN(rest, " ", 3)
		if len(fs) < 3 {
			continue
		}
		pr = strings.TrimPrefix(fs[0], "property=")
		key = strings.TrimPrefix(fs[1], "key=")
		k = append(k, struct{ prop, key, text string }{pr, key, fs[2]})
	}
	return k
}

func (k knownSet) match(prop, key string) string {
	key = strings.ReplaceAll(key, " ", "_")
	for _, x := range k {
		if x.prop == prop && x.key == key {
			return x.text
		}
	}
	return ""
}

func writeEvidence(verif, prop, tier string, r *Result, evs []map[string]interface{}, funcs map[string]bool, wall, loadS float64, replays, nviol int) {
	var fs, all []string
	for f := range funcs {
		if strings.Contains(f, "go-iden3-core") && !strings.Contains(f, "verifharness") {
			fs = append(fs, strings.ReplaceAll(f, "github.com/iden3/go-iden3-core/", ""))
		} else if !strings.Contains(f, "verifharness") {
			all = append(all, f)
		}
	}
	sort.Strings(fs)
	sort.Strings(all)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := []interface{}{}
	for i, s := range r.Samples {
		if i < 8 {
			samples = append(samples, s)
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"wall_s": wall, "violations": nviol,
		"coverage": map[string]interface{}{
			"explanation":       "bounded symbolic execution of the repository's SSA (regenerated from the working tree on this run): every feasible path of each harness entry within its bounds is executed with symbolic inputs, and an SMT solver decides every branch and assertion over all values of that path; counterexamples are replayed natively before being reported",
			"functions_encoded": fs, "dependency_functions_encoded": all,
			"symbolic_steps": r.Steps, "paths": r.Paths, "infeasible_paths": r.Infeasible, "inconclusive_paths": r.Inconclusive, "unexplored_prefixes": r.Pending, "aborted_paths": r.Aborted,
			"assertions_decided": r.Asserts, "queries_discharged": r.Queries, "queries_unknown": r.Unknown, "solver_s": r.SolverS, "solver": solverBin(), "load_s": loadS,
			"native_replays": replays, "entries": evs, "samples": samples,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}
