package main

// Data races: the happens-before relation of the path's synchronisation
// (locks, channels, atomics, start and end of threads) is kept in vector
// clocks, and two accesses to one variable or map, one of them a write, that
// it leaves unordered are a violation, whatever order they came in on the path.

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type vclock []int

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, n := range o {
		if n > (*v)[i] {
			(*v)[i] = n
		}
	}
}

func (v vclock) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type access struct {
	g, c int
	fn   *ssa.Function
}

type shadow struct {
	w     access // g < 0: none
	reads []access
}

type races struct {
	on    bool
	off   int // depth of package initialisers
	vc    []vclock
	cells map[*Value]*shadow
	maps  map[*MapV]*shadow
	syncs map[interface{}]*[2]vclock // of releases by writers and by readers
	seen  map[string]bool
}

func newRaces() *races {
	return &races{cells: map[*Value]*shadow{}, maps: map[*MapV]*shadow{}, syncs: map[interface{}]*[2]vclock{}, seen: map[string]bool{}}
}

func (p *Path) racing() bool { return p.rc != nil && len(p.gs) > 1 && p.rc.off == 0 }

func (p *Path) vc(g int) *vclock {
	for len(p.rc.vc) <= g {
		p.rc.vc = append(p.rc.vc, nil)
	}
	v := &p.rc.vc[g]
	for len(*v) <= g {
		*v = append(*v, 0)
	}
	if (*v)[g] == 0 {
		(*v)[g] = 1
	}
	return v
}

func (p *Path) raceSpawn(g int) {
	if p.rc == nil {
		return
	}
	me := p.running.id
	p.vc(me)
	p.vc(g)
	p.vc(g).join(*p.vc(me))
	(*p.vc(me))[me]++
}

func (p *Path) syncOf(k interface{}) *[2]vclock {
	s := p.rc.syncs[k]
	if s == nil {
		s = &[2]vclock{}
		p.rc.syncs[k] = s
	}
	return s
}

// acquire orders what follows after the releases of k: those by writers, and
// by readers too for a writer.
func (p *Path) acquire(k interface{}, write bool) {
	if p.rc == nil || p.running == nil {
		return
	}
	s := p.syncOf(k)
	v := p.vc(p.running.id)
	v.join(s[0])
	if write {
		v.join(s[1])
	}
}

func (p *Path) release(k interface{}, write bool) {
	if p.rc == nil || p.running == nil {
		return
	}
	me := p.running.id
	i := 0
	if !write {
		i = 1
	}
	p.syncOf(k)[i].join(*p.vc(me))
	(*p.vc(me))[me]++
}

// observed tells whether the accesses of a function count: those of the
// harness and its models do not.
func (p *Path) observed() bool {
	if !p.racing() || p.cur == nil {
		return false
	}
	fi := p.cur.fi
	if fi.obs == 0 {
		fi.obs = 1
		fn := p.cur.fn
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if o := fn.Origin(); o != nil {
			fn = o
		}
		if fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "verifharness") {
			fi.obs = 2
		}
	}
	return fi.obs == 1
}

func (p *Path) touch(s *shadow, write bool, what string) {
	me := p.running.id
	v := *p.vc(me)
	a := access{me, v.at(me), p.cur.fn}
	if s.w.g >= 0 && s.w.g != me && s.w.c > v.at(s.w.g) {
		p.race(what, s.w, a)
	}
	if !write {
		for i := range s.reads {
			if s.reads[i].g == me {
				s.reads[i] = a
				return
			}
		}
		s.reads = append(s.reads, a)
		return
	}
	for _, r := range s.reads {
		if r.g != me && r.c > v.at(r.g) {
			p.race(what, r, a)
		}
	}
	s.w, s.reads = a, s.reads[:0]
}

func shortFn(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/iden3/go-iden3-core/", "")
	return s
}

func (p *Path) race(what string, a, b access) {
	ns := []string{shortFn(a.fn), shortFn(b.fn)}
	sort.Strings(ns)
	l := fmt.Sprintf("data race: %s in %s and %s", what, ns[0], ns[1])
	if p.rc.seen[l] {
		return
	}
	p.rc.seen[l] = true
	v, _ := p.eng.raceSeen.LoadOrStore(l, new(atomic.Int32))
	if v.(*atomic.Int32).Load() >= 4 {
		return // candidates enough of this one
	}
	n := len(p.viols)
	p.violate(l)
	if len(p.viols) > n {
		v.(*atomic.Int32).Add(1)
	}
}

func (p *Path) touchCell(q *Value, write bool) {
	switch x := (*q).(type) {
	case Struct:
		for i := range x {
			p.touchCell(&x[i], write)
		}
		return
	case Array:
		for i := range x {
			p.touchCell(&x[i], write)
		}
		return
	}
	s := p.rc.cells[q]
	if s == nil {
		s = &shadow{w: access{g: -1}}
		p.rc.cells[q] = s
	}
	p.touch(s, write, "a variable")
}

func (p *Path) readCell(q *Value) {
	if p.observed() {
		p.touchCell(q, false)
	}
}

func (p *Path) writeCell(q *Value) {
	if p.observed() {
		p.touchCell(q, true)
	}
}

func (p *Path) touchSlice(v Value, write bool) {
	if xs, ok := v.([]Value); ok && p.observed() {
		for i := range xs {
			p.touchCell(&xs[i], write)
		}
	}
}

func (p *Path) touchMap(m *MapV, write bool) {
	if m == nil || !p.observed() {
		return
	}
	s := p.rc.maps[m]
	if s == nil {
		s = &shadow{w: access{g: -1}}
		p.rc.maps[m] = s
	}
	p.touch(s, write, "a map")
}

func ownAlloc(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	return ok && !a.Heap
}

func (p *Path) touchBuiltin(name string, args []Value) {
	switch name {
	case "append":
		if len(args) < 2 {
			return
		}
		s, _ := args[0].([]Value)
		y, n := args[1], 0
		switch y := y.(type) {
		case []Value:
			n = len(y)
		case string, *SymStr:
			n = strLen(y)
		}
		p.touchSlice(y, false)
		if n > 0 && len(s)+n <= cap(s) {
			p.touchSlice(s[len(s):len(s)+n], true)
		} else if n > 0 {
			p.touchSlice(s, false)
		}
	case "copy":
		d, _ := args[0].([]Value)
		n := len(d)
		switch y := args[1].(type) {
		case []Value:
			n = min(n, len(y))
			p.touchSlice(y[:n], false)
		case string, *SymStr:
			n = min(n, strLen(y))
		}
		p.touchSlice(d[:n], true)
	case "len":
		if m, ok := args[0].(*MapV); ok {
			p.touchMap(m, false)
		}
	case "delete", "clear":
		if m, ok := args[0].(*MapV); ok {
			p.touchMap(m, true)
		}
	}
}

// touchArgs counts what an intrinsic reads and writes through its arguments.
func (p *Path) touchArgs(fn *ssa.Function, args []Value) {
	if !p.observed() || len(args) == 0 {
		return
	}
	sig := fn.Signature
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "sync", "sync/atomic", "unsafe", "reflect":
			return
		}
	}
	for i, a := range args {
		switch x := a.(type) {
		case []Value:
			for k := range x {
				if s, ok := x[k].(*Value); ok && s != nil {
					if _, big := (*s).(BigVal); big {
						p.touchCell(s, false)
					}
				}
				p.touchCell(&x[k], false)
			}
		case *Value:
			if x == nil {
				continue
			}
			if _, big := (*x).(BigVal); !big {
				continue
			}
			w := i == 0 && sig.Recv() != nil && sig.Results().Len() > 0 && isBigPtr(sig.Results().At(0).Type())
			p.touchCell(x, w)
		}
	}
}

// raceIn tells whether the race detector of a replay found a race between two
// accesses made outside the harness.
func raceIn(out string) bool {
	for _, blk := range strings.Split(out, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		ok, n := true, 0
		for _, par := range strings.Split(blk, "\n\n") {
			if !strings.Contains(par, "rite at 0x") && !strings.Contains(par, "ead at 0x") {
				continue
			}
			n++
			for _, l := range strings.Split(par, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "github.com/iden3/go-iden3-core/") && strings.HasSuffix(l, ")") {
					ok = ok && !strings.HasPrefix(l, "github.com/iden3/go-iden3-core/verifharness/")
					break
				}
			}
		}
		if ok && n == 2 {
			return true
		}
	}
	return false
}
