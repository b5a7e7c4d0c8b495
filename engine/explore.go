package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	prog       *ssa.Program
	redirect   map[string]*ssa.Function
	errStrT    types.Type
	errorT     types.Type
	byteT      types.Type
	yieldKinds map[string]bool
	maxSteps   int
	preempt    int
	params     map[string]int
	tier       string
	symPkg     *ssa.Package
	pkgs       map[string]*ssa.Package
	typeCache  sync.Map
	race       bool
	raceSeen   sync.Map
}

type Worker struct {
	eng    *Engine
	c      *TermCtx
	s      *Solver
	fns    map[*ssa.Function]*fnInfo
	consts map[*ssa.Const]Value
	impl   map[[2]types.Type]bool
	meths  map[methKey]*ssa.Function
	noted  map[*ssa.Function]bool
	triv   int
}

type Result struct {
	Paths, Infeasible, Inconclusive, Aborted int
	Pending                                  int
	Asserts, Queries, Unknown                int
	SolverS                                  float64
	Steps                                    int
	Reach                                    map[string]int
	Reasons                                  map[string]int
	Viols                                    []violation
	Funcs                                    []string
	Samples                                  []map[string]string
	Wall                                     float64
}

func newWorker(e *Engine) *Worker {
	w := &Worker{eng: e, c: NewCtx(), fns: map[*ssa.Function]*fnInfo{}, impl: map[[2]types.Type]bool{}, meths: map[methKey]*ssa.Function{}, noted: map[*ssa.Function]bool{}, consts: map[*ssa.Const]Value{}}
	w.s = NewSolver(solverBin(), 20000)
	return w
}

func solverBin() string {
	if b := os.Getenv("ENGINE_SOLVER"); b != "" {
		return b
	}
	return "z3-new"
}

// Explore runs the entry function over every path within the bounds.
func (e *Engine) Explore(entry *ssa.Function, nw int, deadline time.Time, maxPaths int) *Result {
	t0 := time.Now()
	res := &Result{Reach: map[string]int{}, Reasons: map[string]int{}}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := [][]decision{nil}
	active := 0
	funcs := map[string]bool{}
	vseen := map[string]int{}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := newWorker(e)
			defer func() { w.s.Close() }()
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 {
					cond.Wait()
				}
				if len(queue) == 0 || time.Now().After(deadline) || (maxPaths > 0 && res.Paths+active >= maxPaths) {
					if len(queue) > 0 {
						res.Pending = len(queue)
					}
					cond.Broadcast()
					mu.Unlock()
					break
				}
				pre := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				active++
				mu.Unlock()
				if len(w.c.tab) > 1500000 {
					w.c.reset()
					w.consts = map[*ssa.Const]Value{}
				}
				p, end := w.runPath(entry, pre, deadline)
				mu.Lock()
				active--
				queue = append(queue, p.alts...)
				res.Steps += p.steps
				switch end.kind {
				case EndOK, EndViolation:
					res.Paths++
					for l := range p.reach {
						res.Reach[l]++
					}
					if len(res.Samples) < 5 && end.kind == EndOK {
						res.Samples = append(res.Samples, p.sample())
					}
				case EndInfeasible:
					res.Infeasible++
				case EndInconclusive:
					res.Inconclusive++
					res.Reasons[end.msg]++
				case EndAbort:
					res.Aborted++
					res.Reasons["aborted: "+end.msg]++
				}
				if p.bad != "" {
					res.Inconclusive++
					res.Reasons[p.bad]++
				}
				res.Asserts += p.asserts
				for _, v := range p.viols {
					vseen[v.Label]++
					if vseen[v.Label] <= 12 {
						res.Viols = append(res.Viols, v)
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
			mu.Lock()
			res.Queries += w.s.queries
			res.Unknown += w.s.unknown
			res.SolverS += w.s.spent.Seconds()
			for f := range w.noted {
				funcs[f.String()] = true
			}
			mu.Unlock()
		}(i)
	}
	wg.Wait()
	for f := range funcs {
		res.Funcs = append(res.Funcs, f)
	}
	sort.Strings(res.Funcs)
	res.Wall = time.Since(t0).Seconds()
	return res
}

func (p *Path) sample() map[string]string {
	m := map[string]string{}
	for i, in := range p.inputs {
		if i > 24 {
			break
		}
		if in.t == nil {
			m[in.name] = fmt.Sprint(in.val)
		} else {
			m[in.name] = fmt.Sprintf("symbolic:%d bits", in.t.w)
		}
	}
	m["decisions"] = fmt.Sprint(len(p.taken))
	return m
}

func (w *Worker) runPath(entry *ssa.Function, pre []decision, dl time.Time) (p *Path, end pathEnd) {
	p = &Path{w: w, eng: w.eng, c: w.c, s: w.s, prefix: pre, maxSteps: w.eng.maxSteps, globals: map[*ssa.Global]*Value{},
		inited: map[*ssa.Package]bool{}, occ: map[string]int{}, reach: map[string]bool{}, ufSeen: map[int]bool{}, side: map[string]interface{}{},
		preempt: w.eng.preempt, dl: dl, concH: map[string]map[int]*Term{}, concRaw: map[string][]*Term{}, symH: map[string]bool{}}
	if w.s == nil || w.s.cmd == nil {
		w.s = NewSolver(solverBin(), 20000)
		p.s = w.s
	}
	w.s.BeginPath()
	if w.eng.race {
		p.rc = newRaces()
	}
	defer func() {
		p.unwind()
		if w.s.dead {
			q, u, sp := w.s.queries, w.s.unknown, w.s.spent
			w.s = NewSolver(solverBin(), 20000)
			w.s.queries, w.s.unknown, w.s.spent = q, u, sp
		}
	}()
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
			end = pathEnd{EndOK, ""}
			if p.lazy {
				if r, _ := p.s.Check(nil, nil); r == Unsat {
					end = pathEnd{EndInfeasible, "assume"}
				}
			}
		case pathEnd:
			end = x
			if x.kind == EndViolation && x.msg == "deadlock" {
				func() {
					defer func() {
						if recover() != nil {
							end = pathEnd{EndInconclusive, "deadlock feasibility"}
						}
					}()
					p.violate("deadlock")
				}()
			}
		case targetPanic:
			msg := "panic: " + p.panicText(x)
			func() {
				defer func() {
					if rr := recover(); rr != nil {
						end = pathEnd{EndInconclusive, fmt.Sprint("panic feasibility: ", rr)}
					}
				}()
				end = pathEnd{EndViolation, msg}
				p.cur = nil
				p.violateAt(msg, x.where)
			}()
		default:
			msg := fmt.Sprintf("engine: %v @ %s", x, p.where())
			if os.Getenv("ENGINE_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", msg, debug.Stack())
			}
			if len(msg) > 600 {
				msg = msg[:600]
			}
			end = pathEnd{EndInconclusive, msg}
		}
	}()
	p.ensureInit(entry.Pkg)
	p.callFn(nil, entry, nil, nil)
	return
}

func (p *Path) violateAt(label, where string) {
	n := len(p.viols)
	p.violate(label)
	if len(p.viols) > n {
		p.viols[n].Where = where
	}
}

func (p *Path) panicText(tp targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "(unprintable)"
		}
	}()
	i, ok := tp.v.(Iface)
	if !ok || i.T == nil {
		return "nil"
	}
	if p.implements(i.T, p.eng.errorT.Underlying().(*types.Interface)) {
		if m := p.methodByName(i.T, "Error"); m != nil {
			if st, ok := p.callFn(nil, m, []Value{i.V}, nil).(string); ok {
				return st
			}
		}
	}
	if st, ok := i.V.(string); ok {
		return st
	}
	return i.T.String()
}
