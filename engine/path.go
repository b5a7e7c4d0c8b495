package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A decision is one recorded nondeterministic choice of a path.  A path is
// identified by its decision list and is re-executed from the start.
type decision struct {
	k byte  // 'b' branch, 'c' concretisation, 'n' free choice
	v int64 // outcome / value / choice
	y bool  // concretisation: t==v taken
	f bool  // forced: the other outcome is infeasible
}

type symInput struct {
	name string
	t    *Term // nil for concrete choices
	val  int64
	kind string
}

type violation struct {
	Label  string
	Where  string
	Model  map[string]string
	Hashes []hashRow
	Sched  []int
	Prefix []decision
}

type hashRow struct {
	Fn  string   `json:"fn"`
	In  []string `json:"in"`
	Out string   `json:"out"`
}

type Path struct {
	w        *Worker
	eng      *Engine
	c        *TermCtx
	s        *Solver
	cur      *frame
	steps    int
	maxSteps int
	depth    int
	mapRev   bool

	prefix []decision
	taken  []decision
	alts   [][]decision

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	inputs  []symInput
	occ     map[string]int
	reach   map[string]bool
	viols   []violation
	asserts int
	bad     string // an assertion could not be decided

	lazy    bool    // has free assumptions not yet checked
	ufApps  []*Term // applications of hash functions, for replay tables
	ufSeen  map[int]bool
	side    map[string]interface{}
	concH   map[string]map[int]*Term
	concRaw map[string][]*Term
	symH    map[string]bool

	gs      []*goro
	running *goro
	fatal   interface{}
	sched   []int
	yields  int
	preempt int
	nowT    *Term
	fresh   int
	dl      time.Time
	rc      *races
}

func (p *Path) replaying() bool { return len(p.taken) < len(p.prefix) }

func (p *Path) record(d decision) { p.taken = append(p.taken, d) }

func (p *Path) pushAlt(d decision) {
	a := make([]decision, len(p.taken)+1)
	copy(a, p.taken)
	a[len(p.taken)] = d
	p.alts = append(p.alts, a)
}

func (p *Path) checkTime() {
	if time.Now().After(p.dl) {
		panic(pathEnd{EndAbort, "deadline"})
	}
}

func (p *Path) branch(cond *Term) bool {
	if cond.isConst() {
		return cond.u == 1
	}
	c := p.c
	// conditions already decided on this path need no decision
	if v, ok := p.implied(cond); ok {
		return v
	}
	if p.replaying() {
		d := p.prefix[len(p.taken)]
		if d.k != 'b' {
			panic("replay divergence (branch) @ " + p.where())
		}
		p.record(d)
		if !d.f {
			p.assume0(cond, d.v == 1)
		}
		p.remember(cond, d.v == 1)
		return d.v == 1
	}
	p.checkTime()
	n := c.Not(cond)
	rn, _ := p.s.Check(n, nil)
	if rn == Unsat {
		p.record(decision{k: 'b', v: 1, f: true})
		p.remember(cond, true)
		return true
	}
	rp, _ := p.s.Check(cond, nil)
	if rp == Unsat {
		p.record(decision{k: 'b', v: 0, f: true})
		p.remember(cond, false)
		return false
	}
	p.pushAlt(decision{k: 'b', v: 0})
	p.record(decision{k: 'b', v: 1})
	p.assume0(cond, true)
	p.remember(cond, true)
	return true
}

func (p *Path) known() map[int]bool {
	m, _ := p.side["known"].(map[int]bool)
	if m == nil {
		m = map[int]bool{}
		p.side["known"] = m
	}
	return m
}

// remember/implied: conditions already decided on this path; a replayed path
// rebuilds the same knowledge.
func (p *Path) remember(t *Term, v bool) {
	k := p.known()
	for t.op == OBNot {
		t, v = t.a[0], !v
	}
	k[t.id] = v
	if t.op == OBAnd && v || t.op == OBOr && !v {
		for _, a := range t.a {
			p.remember(a, v)
		}
	}
}

// implied: a condition that follows propositionally from those decided.
func (p *Path) implied(t *Term) (v bool, ok bool) { return p.eval3(p.known(), t, 6) }

func (p *Path) eval3(k map[int]bool, t *Term, d int) (bool, bool) {
	if t.isConst() {
		return t.u == 1, true
	}
	if v, ok := k[t.id]; ok {
		return v, true
	}
	if d == 0 {
		return false, false
	}
	switch t.op {
	case OBNot:
		v, ok := p.eval3(k, t.a[0], d-1)
		return !v, ok
	case OBAnd, OBOr:
		all := true
		for _, a := range t.a {
			v, ok := p.eval3(k, a, d-1)
			if ok && v == (t.op == OBOr) {
				return v, true
			}
			all = all && ok
		}
		return t.op == OBAnd, all
	case OEq:
		if t.a[0].w == 0 {
			x, ok1 := p.eval3(k, t.a[0], d-1)
			if !ok1 {
				return false, false
			}
			y, ok2 := p.eval3(k, t.a[1], d-1)
			return x == y, ok2
		}
	case OIte:
		if g, ok := p.eval3(k, t.a[0], d-1); ok {
			if g {
				return p.eval3(k, t.a[1], d-1)
			}
			return p.eval3(k, t.a[2], d-1)
		}
	}
	return false, false
}

func (p *Path) assume0(cond *Term, v bool) {
	if !v {
		cond = p.c.Not(cond)
	}
	p.s.Assert(cond)
}

// assume restricts the path; ends it when infeasible.
func (p *Path) assume(cond *Term) {
	if cond.isTrue() {
		return
	}
	if cond.isFalse() {
		if trace {
			fmt.Println("INFEASIBLE assume", p.where(), cond)
		}
		panic(pathEnd{EndInfeasible, "assume"})
	}
	if v, ok := p.implied(cond); ok {
		if !v {
			panic(pathEnd{EndInfeasible, "assume"})
		}
		return
	}
	if p.replaying() {
		d := p.prefix[len(p.taken)]
		p.record(d)
		if d.k != 'a' {
			panic("replay divergence (assume) @ " + p.where())
		}
		p.s.Assert(cond)
		p.remember(cond, true)
		return
	}
	r, _ := p.s.Check(cond, nil)
	if r == Unsat {
		if trace {
			fmt.Println("INFEASIBLE assume", p.where(), cond)
		}
		panic(pathEnd{EndInfeasible, "assume"})
	}
	p.record(decision{k: 'a'})
	p.s.Assert(cond)
	p.remember(cond, true)
}

// assumeFree is an assumption that is expected not to exclude everything; its
// consistency is checked only at the end of the path.
func (p *Path) assumeFree(cond *Term) {
	if cond.isTrue() {
		return
	}
	if v, ok := p.implied(cond); ok || cond.isFalse() {
		if !v {
			panic(pathEnd{EndInfeasible, "assume"})
		}
		return
	}
	p.s.Assert(cond)
	p.remember(cond, true)
	p.lazy = true
}

// concInt forks over the feasible values of t.
func (p *Path) concInt(t *Term) int64 {
	if t.isConst() {
		return t.S64()
	}
	for n := 0; ; n++ {
		if p.replaying() {
			d := p.prefix[len(p.taken)]
			if d.k != 'c' {
				panic("replay divergence (conc) @ " + p.where())
			}
			p.record(d)
			e := p.c.Eq(t, p.c.Const(t.w, uint64(d.v)))
			if d.y {
				if !d.f {
					p.s.Assert(e)
				}
				return signW(d.v, t.w)
			}
			p.s.Assert(p.c.Not(e))
			continue
		}
		p.checkTime()
		if n > 300 {
			panic(pathEnd{EndInconclusive, "concretisation bound @ " + p.where()})
		}
		r, m := p.s.Check(nil, []*Term{t})
		if r != SatYes {
			if r == Unsat {
				panic(pathEnd{EndInfeasible, "conc"})
			}
			panic(pathEnd{EndInconclusive, "solver unknown in concretisation @ " + p.where()})
		}
		v := m[t.id]
		e := p.c.Eq(t, p.c.ConstBig(t.w, v))
		rn, _ := p.s.Check(p.c.Not(e), nil)
		d := decision{k: 'c', v: int64(v.Uint64()), y: true, f: rn == Unsat}
		if rn != Unsat {
			alt := d
			alt.y = false
			p.pushAlt(alt)
			p.s.Assert(e)
		}
		p.record(d)
		return signW(d.v, t.w)
	}
}

func signW(v int64, w int) int64 {
	if w >= 64 {
		return v
	}
	return v & int64(mask(w))
}

// choose is a free choice in [0,n): every value is explored.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.replaying() {
		d := p.prefix[len(p.taken)]
		if d.k != 'n' {
			panic("replay divergence (choose) @ " + p.where())
		}
		p.record(d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		p.pushAlt(decision{k: 'n', v: int64(i)})
	}
	p.record(decision{k: 'n', v: 0})
	return 0
}

// assert: the solver decides whether the condition can fail on this path.
func (p *Path) assert(cond *Term, label string) {
	p.asserts++
	if v, ok := p.implied(cond); ok && v {
		p.w.triv++
		return
	}
	if p.replaying() {
		d := p.prefix[len(p.taken)]
		if d.k != 's' {
			panic("replay divergence (assert) @ " + p.where())
		}
		p.record(d)
		if d.v == 0 {
			panic(pathEnd{EndOK, "assert always false"})
		}
		p.s.Assert(cond)
		p.remember(cond, true)
		return
	}
	p.checkTime()
	n := p.c.Not(cond)
	r, m := p.s.Check(n, p.modelTerms())
	ok := int64(1)
	switch r {
	case SatYes:
		p.report(label, m)
		// go on with the condition holding, if it can
		r2, _ := p.s.Check(cond, nil)
		if r2 == Unsat {
			ok = 0
		}
	case Unknown:
		p.bad = "undecided assertion " + label
	}
	p.record(decision{k: 's', v: ok})
	if ok == 0 {
		panic(pathEnd{EndViolation, label})
	}
	p.s.Assert(cond)
	p.remember(cond, true)
}

func (p *Path) modelTerms() []*Term {
	var r []*Term
	for _, in := range p.inputs {
		if in.t != nil {
			r = append(r, in.t)
		}
	}
	for _, u := range p.ufApps {
		r = append(r, u)
		r = append(r, u.a...)
	}
	return r
}

func (p *Path) report(label string, m map[int]*big.Int) {
	v := violation{Label: label, Where: p.where(), Model: map[string]string{}, Sched: append([]int(nil), p.sched...), Prefix: append([]decision(nil), p.taken...)}
	hex := func(t *Term) string {
		if t.isConst() {
			return t.Big().Text(16)
		}
		if x, ok := m[t.id]; ok {
			return x.Text(16)
		}
		return "0"
	}
	for _, in := range p.inputs {
		if in.t == nil {
			v.Model[in.name] = fmt.Sprintf("%x", in.val)
			continue
		}
		v.Model[in.name] = hex(in.t)
	}
	for _, u := range p.ufApps {
		row := hashRow{Fn: u.s, Out: hex(u)}
		for _, a := range u.a {
			row.In = append(row.In, hex(a))
		}
		v.Hashes = append(v.Hashes, row)
	}
	p.viols = append(p.viols, v)
}

// violate reports a failure that needs no further condition (panic, deadlock).
func (p *Path) violate(label string) {
	r, m := p.s.Check(nil, p.modelTerms())
	if r == SatYes {
		p.report(label, m)
	} else if r == Unknown {
		p.bad = "undecided feasibility of " + label
	}
}

func (p *Path) input(name, kind string, w int) *Term {
	n := p.inName(name)
	t := p.c.Var(n, w)
	p.inputs = append(p.inputs, symInput{name: n, t: t, kind: kind})
	return t
}

// inputBelow is an input known to be at most max.
func (p *Path) inputBelow(name, kind string, w int, min, max *big.Int) *Term {
	n := p.inName(name)
	t := p.c.Var(n+"<="+max.Text(16)+">="+min.Text(16), w)
	t.mx, t.mn = max, min
	p.inputs = append(p.inputs, symInput{name: n, t: t, kind: kind})
	return t
}

func (p *Path) inName(name string) string {
	k := p.occ[name]
	p.occ[name] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

// ---- globals and package initialisation

// the standard-library packages whose initialisers are executed; the other
// ones keep uninitialised globals, whose use is refused (see global).
var runInit = map[string]bool{"io": true, "bytes": true, "bufio": true, "strings": true, "encoding/hex": true, "container/list": true, "container/heap": true, "encoding/base64": true}

func skipPkg(path string) bool {
	if i := strings.IndexByte(path, '/'); !strings.Contains(path, ".") || (i >= 0 && !strings.Contains(path[:i], ".")) {
		return !runInit[path]
	}
	if path == "github.com/syndtr/goleveldb/leveldb" || path == "github.com/syndtr/goleveldb/leveldb/errors" {
		return false
	}
	for _, pre := range []string{"github.com/ethereum/", "github.com/sirupsen/", "golang.org/", "google.golang.org/", "github.com/syndtr/", "github.com/gin-gonic/", "github.com/iden3/go-circom-prover-verifier", "github.com/iden3/go-iden3-crypto/poseidon", "github.com/iden3/go-iden3-crypto/babyjub", "github.com/iden3/go-iden3-crypto/ff", "github.com/iden3/go-iden3-crypto/mimc7", "github.com/iden3/go-wasm3", "github.com/dghubble", "github.com/ugorji", "github.com/go-playground", "gopkg.in/go-playground", "github.com/iden3/go-iden3-core/eth/contracts"} {
		if strings.HasPrefix(path, pre) {
			return true
		}
	}
	return false
}

func (p *Path) global(g *ssa.Global) *Value {
	if v, ok := p.globals[g]; ok {
		return v
	}
	p.ensureInit(g.Pkg)
	if v, ok := p.globals[g]; ok {
		return v
	}
	cell := new(Value)
	*cell = p.zero(deref(g.Type()))
	p.globals[g] = cell
	if m := globalModel(g.String()); m != nil {
		*cell = m(p, deref(g.Type()))
	} else if g.Pkg != nil && skipPkg(g.Pkg.Pkg.Path()) {
		// an uninitialised global of a package whose initialiser is not run:
		// sentinel errors get a distinct identity, anything else is refused
		t := deref(g.Type())
		if types.Identical(t, p.eng.errorT) {
			*cell = p.errIface("<" + g.String() + ">")
		} else if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		} else if !strings.Contains(g.Name(), "init$guard") && g.String() != "crypto/rand.Reader" { // models set the reader
			p.unsupported("global of uninitialised package: " + g.String())
		}
	}
	return cell
}

func (p *Path) ensureInit(pkg *ssa.Package) {
	if pkg == nil || p.inited[pkg] {
		return
	}
	p.inited[pkg] = true
	if skipPkg(pkg.Pkg.Path()) {
		return
	}
	pkg.Build()
	initf := pkg.Func("init")
	if initf == nil {
		return
	}
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			cell := new(Value)
			*cell = p.zero(deref(g.Type()))
			p.globals[g] = cell
		}
	}
	sc, sd := p.cur, p.depth
	if p.rc != nil {
		p.rc.off++
	}
	p.runFn(nil, initf, p.w.info(initf), nil, nil)
	if p.rc != nil {
		p.rc.off--
	}
	p.cur, p.depth = sc, sd
}

func (p *Path) noteFn(fn *ssa.Function) {
	if !p.w.noted[fn] {
		p.w.noted[fn] = true
	}
}

// ---- goroutines: baton passing between native goroutines

type goro struct {
	id     int
	resume chan struct{}
	done   bool
	block  func() bool // non-nil while blocked: reports whether it may go on
	cur    *frame
	depth  int
}

func (p *Path) mainGoro() {
	if len(p.gs) == 0 {
		g := &goro{id: 0, resume: make(chan struct{}, 1)}
		p.gs = append(p.gs, g)
		p.running = g
	}
}

func (p *Path) spawn(fn Value, args []Value) {
	p.mainGoro()
	g := &goro{id: len(p.gs), resume: make(chan struct{}, 1)}
	p.gs = append(p.gs, g)
	p.raceSpawn(g.id)
	go func() {
		<-g.resume
		defer func() {
			r := recover()
			g.done = true
			if r != nil {
				if pe, ok := r.(pathEnd); ok && pe.kind == EndAbort && pe.msg == "unwind" {
					p.gs[0].resume <- struct{}{}
					return
				}
				p.fatal = r
				p.running = p.gs[0]
				p.gs[0].resume <- struct{}{}
				return
			}
			// hand over
			defer func() {
				if r := recover(); r != nil {
					p.fatal = r
					p.running = p.gs[0]
					p.gs[0].resume <- struct{}{}
				}
			}()
			n := p.pick(nil)
			if n == nil {
				p.fatal = pathEnd{EndViolation, "deadlock"}
				n = p.gs[0]
			}
			p.running = n
			p.cur, p.depth = n.cur, n.depth
			n.resume <- struct{}{}
		}()
		if p.fatal != nil {
			panic(pathEnd{EndAbort, "unwind"})
		}
		p.cur, p.depth = nil, 0
		p.call(nil, fn, args)
	}()
	p.maybeYield("go")
}

func (p *Path) runnable(except *goro) []*goro {
	var r []*goro
	for _, g := range p.gs {
		if g.done || g == except {
			continue
		}
		if g.block != nil && !g.block() {
			continue
		}
		r = append(r, g)
	}
	return r
}

func (p *Path) pick(except *goro) *goro {
	r := p.runnable(except)
	if len(r) == 0 {
		return nil
	}
	i := p.choose(len(r))
	return r[i]
}

func (p *Path) switchTo(g *goro) {
	me := p.running
	if g == me {
		return
	}
	me.cur, me.depth = p.cur, p.depth
	p.running = g
	p.cur, p.depth = g.cur, g.depth
	g.resume <- struct{}{}
	<-me.resume
	if p.fatal != nil {
		if me.id == 0 {
			f := p.fatal
			panic(f)
		}
		panic(pathEnd{EndAbort, "unwind"})
	}
	p.cur, p.depth = me.cur, me.depth
}

// maybeYield is a preemption point.
func (p *Path) maybeYield(kind string) {
	if len(p.gs) <= 1 || !p.eng.yieldKinds[kind] {
		return
	}
	if kind == "map" && p.cur != nil && p.cur.fn.Pkg != nil && strings.Contains(p.cur.fn.Pkg.Pkg.Path(), "verifharness") {
		return // a model is one step, but for its own sym.Yield calls
	}
	p.yields++
	r := p.runnable(p.running)
	if len(r) == 0 || p.preempt <= 0 {
		p.sched = append(p.sched, p.running.id)
		return
	}
	i := p.choose(len(r) + 1)
	if i == 0 {
		p.sched = append(p.sched, p.running.id)
		return
	}
	p.preempt--
	p.sched = append(p.sched, r[i-1].id)
	p.switchTo(r[i-1])
}

// blockUntil parks the running goroutine until ok() holds.
func (p *Path) blockUntil(ok func() bool, what string) {
	if ok() {
		return
	}
	p.mainGoro()
	me := p.running
	me.block = ok
	for !ok() {
		g := p.pick(me)
		if g == nil {
			me.block = nil
			p.violate("deadlock: " + what)
			panic(pathEnd{EndViolation, "deadlock: " + what})
		}
		p.switchTo(g)
	}
	me.block = nil
}

// unwind ends every parked goroutine when the path is over.
func (p *Path) unwind() {
	if len(p.gs) <= 1 {
		return
	}
	p.fatal = pathEnd{EndAbort, "unwind"}
	for _, g := range p.gs[1:] {
		if g.done {
			continue
		}
		g.resume <- struct{}{}
		<-p.gs[0].resume
	}
}

func (p *Path) chanSend(ch *ChanV, v Value) {
	if ch == nil {
		p.blockUntil(func() bool { return false }, "send on nil channel")
	}
	p.maybeYield("chan")
	p.release(ch, true)
	if ch.closed {
		p.goPanicStr("send on closed channel")
	}
	if ch.cap == 0 {
		ch.buf = append(ch.buf, copyVal(v))
		n := ch.sent + 1
		ch.sent = n
		p.blockUntil(func() bool { return ch.recvd >= n }, "channel send")
		p.acquire(&ch.recvd, true)
		return
	}
	p.blockUntil(func() bool { return len(ch.buf) < ch.cap || ch.closed }, "channel send")
	p.acquire(&ch.recvd, true)
	ch.sent++
	ch.buf = append(ch.buf, copyVal(v))
}

func (p *Path) chanRecv(ch *ChanV, et types.Type) (Value, bool) {
	if ch == nil {
		p.blockUntil(func() bool { return false }, "receive on nil channel")
	}
	p.maybeYield("chan")
	p.blockUntil(func() bool { return len(ch.buf) > 0 || ch.closed }, "channel receive")
	p.acquire(ch, true)
	p.release(&ch.recvd, true)
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		ch.recvd++
		return v, true
	}
	return p.zero(et), false
}

// ---- if-conversion hook (none yet)

type diamond struct{}

func (fr *frame) diamond() *diamond                     { return nil }
func (fr *frame) mergeDiamond(d *diamond, c *Term) bool { return false }

func unsafeSlice(q *Value, n int) []Value {
	panic(pathEnd{EndInconclusive, "unsupported: unsafe.Slice"})
}
