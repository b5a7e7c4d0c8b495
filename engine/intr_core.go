package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(p *Path, fn *ssa.Function, args []Value) Value

var intrinsics = map[string]intrinsic{}

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "github.com/sirupsen/logrus.") || strings.HasPrefix(name, "(*github.com/sirupsen/logrus.") || strings.HasPrefix(name, "(github.com/sirupsen/logrus.") {
		return func(p *Path, fn *ssa.Function, args []Value) Value { return p.zeroResults(fn) }
	}
	return nil
}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func globalModel(name string) func(p *Path, t types.Type) Value { return globalModels[name] }

var globalModels map[string]func(p *Path, t types.Type) Value

func init() {
	globalModels = map[string]func(p *Path, t types.Type) Value{
		// the zone only matters for printing
		"time.Local":    func(p *Path, t types.Type) Value { return p.global(p.eng.pkgs["time"].Var("localLoc")) },
		"time.UTC":      func(p *Path, t types.Type) Value { return p.global(p.eng.pkgs["time"].Var("utcLoc")) },
		"time.localLoc": func(p *Path, t types.Type) Value { return p.zero(t) },
		"time.utcLoc":   func(p *Path, t types.Type) Value { return p.zero(t) },
	}
}

func (p *Path) i64(n int) *Term { return p.c.Const(64, uint64(int64(n))) }
func (p *Path) nilErr() Value   { return Iface{} }
func cell(v Value) *Value       { c := new(Value); *c = v; return c }
func (p *Path) str(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		// concretise byte by byte
		r := make([]byte, len(s.B))
		for i, b := range s.B {
			r[i] = byte(p.concInt(b))
		}
		return string(r)
	}
	p.unsupported(fmt.Sprintf("str %T", v))
	return ""
}

// bytesOf: []byte or string contents.
func (p *Path) bytesOf(v Value) []*Term {
	switch v.(type) {
	case string, *SymStr:
		return p.strBytes(v)
	}
	return p.sliceTerms(v)
}

func (p *Path) goBytes(s string) []Value {
	r := make([]Value, len(s))
	for i := range r {
		r[i] = p.byteC(s[i])
	}
	return r
}

func concBytes(ts []*Term) ([]byte, bool) {
	r := make([]byte, len(ts))
	for i, t := range ts {
		if !t.isConst() {
			return nil, false
		}
		r[i] = byte(t.u)
	}
	return r, true
}

func init() {
	noop := func(p *Path, fn *ssa.Function, args []Value) Value { return p.zeroResults(fn) }
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "runtime.Gosched", "internal/godebug.New"} {
		reg(n, noop)
	}
	eq := func(p *Path, fn *ssa.Function, a []Value) Value { return p.eqBytes(p.bytesOf(a[0]), p.bytesOf(a[1])) }
	reg("bytes.Equal", eq)
	reg("internal/bytealg.Equal", eq)
	reg("crypto/subtle.ConstantTimeCompare", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.c.Ite(p.eqBytes(p.bytesOf(a[0]), p.bytesOf(a[1])), p.i64(1), p.i64(0))
	})
	cmp := func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bytesOf(a[0]), p.bytesOf(a[1])
		return p.c.Ite(p.eqBytes(x, y), p.i64(0), p.c.Ite(p.bytesLess(x, y), p.i64(-1), p.i64(1)))
	}
	reg("bytes.Compare", cmp)
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("strings.Compare", cmp)
	hasPrefix := func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bytesOf(a[0]), p.bytesOf(a[1])
		if len(x) < len(y) {
			return p.c.F
		}
		return p.eqBytes(x[:len(y)], y)
	}
	hasSuffix := func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bytesOf(a[0]), p.bytesOf(a[1])
		if len(x) < len(y) {
			return p.c.F
		}
		return p.eqBytes(x[len(x)-len(y):], y)
	}
	for _, n := range []string{"bytes.HasPrefix", "strings.HasPrefix", "internal/stringslite.HasPrefix"} {
		reg(n, hasPrefix)
	}
	for _, n := range []string{"bytes.HasSuffix", "strings.HasSuffix", "internal/stringslite.HasSuffix"} {
		reg(n, hasSuffix)
	}
	indexByte := func(p *Path, fn *ssa.Function, a []Value) Value {
		for i, b := range p.bytesOf(a[0]) {
			if p.branch(p.c.Eq(b, a[1].(*Term))) {
				return p.i64(i)
			}
		}
		return p.i64(-1)
	}
	for _, n := range []string{"bytes.IndexByte", "strings.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		reg(n, indexByte)
	}
	index := func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bytesOf(a[0]), p.bytesOf(a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			if p.branch(p.eqBytes(x[i:i+len(y)], y)) {
				return p.i64(i)
			}
		}
		return p.i64(-1)
	}
	for _, n := range []string{"bytes.Index", "strings.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		reg(n, index)
	}
	reg("strings.Contains", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.c.Not(p.c.Eq(index(p, fn, a).(*Term), p.i64(-1)))
	})
	reg("internal/bytealg.CountString", nil)
	delete(intrinsics, "internal/bytealg.CountString")
	reg("internal/bytealg.MakeNoZero", func(p *Path, fn *ssa.Function, a []Value) Value {
		n := int(p.concInt(a[0].(*Term)))
		s := make([]Value, n)
		for i := range s {
			s[i] = p.byteC(0)
		}
		return s
	})
	conc1 := func(f func(string) Value) intrinsic {
		return func(p *Path, fn *ssa.Function, a []Value) Value { return f(p.str(a[0])) }
	}
	reg("strings.ToLower", func(p *Path, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s)
		}
		bs := p.strBytes(a[0])
		r := make([]*Term, len(bs))
		for i, b := range bs {
			if b.op == OHexd || b.op == OJnum {
				r[i] = b
				continue
			}
			up := p.c.And(p.c.Ule(p.byteC('A'), b), p.c.Ule(b, p.byteC('Z')))
			r[i] = p.c.Ite(up, p.c.Add(b, p.byteC(32)), b)
		}
		return mkStr(r)
	})
	reg("strings.ToUpper", conc1(func(s string) Value { return strings.ToUpper(s) }))
	reg("strings.TrimSpace", conc1(func(s string) Value { return strings.TrimSpace(s) }))
	reg("strings.Replace", func(p *Path, fn *ssa.Function, a []Value) Value {
		return strings.Replace(p.str(a[0]), p.str(a[1]), p.str(a[2]), int(p.concInt(a[3].(*Term))))
	})
	reg("strings.Repeat", func(p *Path, fn *ssa.Function, a []Value) Value {
		return strings.Repeat(p.str(a[0]), int(p.concInt(a[1].(*Term))))
	})
	reg("strings.Join", func(p *Path, fn *ssa.Function, a []Value) Value {
		var r []*Term
		for i, s := range a[0].([]Value) {
			if i > 0 {
				r = append(r, p.strBytes(a[1])...)
			}
			r = append(r, p.strBytes(s)...)
		}
		return mkStr(r)
	})
	reg("strings.Split", func(p *Path, fn *ssa.Function, a []Value) Value {
		var r []Value
		for _, s := range strings.Split(p.str(a[0]), p.str(a[1])) {
			r = append(r, s)
		}
		return r
	})
	// strings.Builder / bytes.Buffer as byte lists kept in side tables
	reg("(*strings.Builder).WriteString", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.bufAppend(a[0], p.strBytes(a[1]))
		return Tuple{p.i64(strLen(a[1])), Iface{}}
	})
	reg("(*strings.Builder).WriteByte", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.bufAppend(a[0], []*Term{a[1].(*Term)})
		return Iface{}
	})
	reg("(*strings.Builder).Write", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.bufAppend(a[0], p.sliceTerms(a[1]))
		return Tuple{p.i64(len(a[1].([]Value))), Iface{}}
	})
	reg("(*strings.Builder).WriteRune", func(p *Path, fn *ssa.Function, a []Value) Value {
		s := string(rune(p.concInt(a[1].(*Term))))
		p.bufAppend(a[0], p.strBytes(s))
		return Tuple{p.i64(len(s)), Iface{}}
	})
	reg("(*strings.Builder).String", func(p *Path, fn *ssa.Function, a []Value) Value { return mkStr(p.bufOf(a[0])) })
	reg("(*strings.Builder).Len", func(p *Path, fn *ssa.Function, a []Value) Value { return p.i64(len(p.bufOf(a[0]))) })
	reg("(*strings.Builder).Grow", noop)
	reg("(*strings.Builder).Reset", func(p *Path, fn *ssa.Function, a []Value) Value { p.bufs()[a[0].(*Value)] = nil; return nil })

	// errors
	reg("errors.Is", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.c.Bool(p.errorsIs(a[0].(Iface), a[1].(Iface)))
	})
	reg("errors.As", func(p *Path, fn *ssa.Function, a []Value) Value {
		tgt := a[1].(Iface)
		pt := tgt.T.Underlying().(*types.Pointer).Elem()
		for e := a[0].(Iface); e.T != nil; e = p.unwrap(e) {
			if it, ok := pt.Underlying().(*types.Interface); ok {
				if p.implements(e.T, it) {
					store(tgt.V.(*Value), e)
					return p.c.T
				}
			} else if types.Identical(e.T, pt) {
				store(tgt.V.(*Value), e.V)
				return p.c.T
			}
		}
		return p.c.F
	})
	reg("reflect.DeepEqual", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.T == nil || y.T == nil {
			return p.c.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return p.c.F
		}
		return p.deepEq(x.T, x.V, y.V)
	})
	sortI := func(p *Path, fn *ssa.Function, a []Value) Value {
		xs := a[0].(Iface).V.([]Value)
		// insertion sort driven by the less function, on a working copy held in place
		n := len(xs)
		for i := 1; i < n; i++ {
			for j := i; j > 0; j-- {
				if !p.branch(p.call(nil, a[1], []Value{p.i64(j), p.i64(j - 1)}).(*Term)) {
					break
				}
				x, y := copyVal(xs[j]), copyVal(xs[j-1])
				store(&xs[j], y)
				store(&xs[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", sortI)
	reg("sort.SliceStable", sortI)
	reg("sort.Strings", func(p *Path, fn *ssa.Function, a []Value) Value {
		xs := a[0].([]Value)
		for i := 1; i < len(xs); i++ {
			for j := i; j > 0 && p.branch(p.bytesLess(p.strBytes(xs[j]), p.strBytes(xs[j-1]))); j-- {
				xs[j], xs[j-1] = xs[j-1], xs[j]
			}
		}
		return nil
	})

	// sync
	reg("(*sync.Mutex).Lock", func(p *Path, fn *ssa.Function, a []Value) Value { p.lock(a[0], true); return nil })
	reg("(*sync.Mutex).Unlock", func(p *Path, fn *ssa.Function, a []Value) Value { p.unlock(a[0], true); return nil })
	reg("(*sync.Mutex).TryLock", func(p *Path, fn *ssa.Function, a []Value) Value {
		m := p.mu(a[0])
		if m.w || m.r > 0 {
			return p.c.F
		}
		m.w = true
		p.acquire(m, true)
		return p.c.T
	})
	reg("(*sync.RWMutex).Lock", func(p *Path, fn *ssa.Function, a []Value) Value { p.lock(a[0], true); return nil })
	reg("(*sync.RWMutex).Unlock", func(p *Path, fn *ssa.Function, a []Value) Value { p.unlock(a[0], true); return nil })
	reg("(*sync.RWMutex).RLock", func(p *Path, fn *ssa.Function, a []Value) Value { p.lock(a[0], false); return nil })
	reg("(*sync.RWMutex).RUnlock", func(p *Path, fn *ssa.Function, a []Value) Value { p.unlock(a[0], false); return nil })
	reg("(*sync.Once).Do", func(p *Path, fn *ssa.Function, a []Value) Value {
		m := p.mu(a[0])
		if !m.done {
			m.done = true
			p.call(p.cur, a[1], nil)
			m.n = 1
			p.release(m, true)
		}
		p.blockUntil(func() bool { return m.n == 1 }, "Once.Do")
		p.acquire(m, true)
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.mu(a[0]).n += int(p.concInt(a[1].(*Term)))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(p *Path, fn *ssa.Function, a []Value) Value {
		m := p.mu(a[0])
		p.release(m, true)
		m.n--
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(p *Path, fn *ssa.Function, a []Value) Value {
		m := p.mu(a[0])
		p.blockUntil(func() bool { return m.n <= 0 }, "WaitGroup.Wait")
		p.acquire(m, true)
		return nil
	})
	for _, w := range []struct {
		n string
		b int
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}} {
		reg("sync/atomic.Load"+w.n, func(p *Path, fn *ssa.Function, a []Value) Value {
			p.acquire(a[0], true)
			return *(a[0].(*Value))
		})
		reg("sync/atomic.Store"+w.n, func(p *Path, fn *ssa.Function, a []Value) Value {
			p.release(a[0], true)
			*(a[0].(*Value)) = a[1]
			return nil
		})
		reg("sync/atomic.Add"+w.n, func(p *Path, fn *ssa.Function, a []Value) Value {
			p.acquire(a[0], true)
			p.release(a[0], true)
			v := p.c.Add((*(a[0].(*Value))).(*Term), a[1].(*Term))
			*(a[0].(*Value)) = v
			return v
		})
	}
	// time
	reg("time.Now", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.maybeYield("time")
		return p.timeFromUnix(p.now(), p.c.Const(64, 0))
	})
	reg("(time.Time).String", func(p *Path, fn *ssa.Function, a []Value) Value { return "a time" })
	reg("time.Sleep", func(p *Path, fn *ssa.Function, a []Value) Value { p.maybeYield("sleep"); return nil })
}

const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

func (p *Path) now() *Term {
	if p.nowT == nil {
		t := p.input("now", "now", 64)
		p.nowT = t
		// a plausible clock: 2001..2100
		p.assume(p.c.And(p.c.Ule(p.c.Const(64, 1000000000), t), p.c.Ule(t, p.c.Const(64, 4102444800))))
	}
	return p.nowT
}

// timeFromUnix builds a time.Time {wall, ext, loc} with second resolution.
func (p *Path) timeFromUnix(sec, nsec *Term) Value {
	if !nsec.isConst() {
		p.unsupported("symbolic nanoseconds")
	}
	if nsec.u >= 1000000000 {
		sec = p.c.Add(sec, p.c.Const(64, uint64(nsec.S64()/1000000000)))
		nsec = p.c.Const(64, uint64(nsec.S64()%1000000000))
	}
	return Struct{nsec, p.c.Add(sec, p.c.Const(64, uint64(unixToInternal))), (*Value)(nil)}
}

func (p *Path) bufs() map[*Value][]*Term {
	m, _ := p.side["bufs"].(map[*Value][]*Term)
	if m == nil {
		m = map[*Value][]*Term{}
		p.side["bufs"] = m
	}
	return m
}
func (p *Path) bufAppend(b Value, bs []*Term) {
	m := p.bufs()
	m[b.(*Value)] = append(m[b.(*Value)], bs...)
}
func (p *Path) bufOf(b Value) []*Term { return p.bufs()[b.(*Value)] }

type muState struct {
	w     bool
	r     int
	owner int
	n     int
	done  bool
}

func (p *Path) mu(v Value) *muState {
	m, _ := p.side["mu"].(map[*Value]*muState)
	if m == nil {
		m = map[*Value]*muState{}
		p.side["mu"] = m
	}
	q, ok := v.(*Value)
	if !ok || q == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	s := m[q]
	if s == nil {
		s = &muState{}
		m[q] = s
	}
	return s
}

func (p *Path) lock(v Value, write bool) {
	m := p.mu(v)
	p.maybeYield("lock")
	if write {
		p.blockUntil(func() bool { return !m.w && m.r == 0 }, "mutex")
		m.w = true
	} else {
		p.blockUntil(func() bool { return !m.w }, "rwmutex")
		m.r++
	}
	p.acquire(m, write)
}

func (p *Path) unlock(v Value, write bool) {
	m := p.mu(v)
	p.release(m, write)
	if write {
		if !m.w {
			p.goPanicStr("fatal error: sync: unlock of unlocked mutex")
		}
		m.w = false
	} else {
		if m.r <= 0 {
			p.goPanicStr("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		m.r--
	}
	p.maybeYield("unlock")
}

func (p *Path) unwrap(e Iface) Iface {
	if m := p.methodByName(e.T, "Unwrap"); m != nil && m.Signature.Results().Len() == 1 {
		if r, ok := p.callFn(p.cur, m, []Value{e.V}, nil).(Iface); ok {
			return r
		}
	}
	return Iface{}
}

func (p *Path) errorsIs(e, t Iface) bool {
	for ; e.T != nil; e = p.unwrap(e) {
		if t.T != nil && types.Identical(e.T, t.T) && types.Comparable(e.T) && p.branch(p.equals(e.T, e.V, t.V)) {
			return true
		}
		if m := p.methodByName(e.T, "Is"); m != nil {
			if r, ok := p.callFn(p.cur, m, []Value{e.V, t}, nil).(*Term); ok && p.branch(r) {
				return true
			}
		}
	}
	return t.T == nil
}

func (p *Path) deepEq(t types.Type, x, y Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a, b := x.(*Value), y.(*Value)
		if a == b {
			return p.c.T
		}
		if a == nil || b == nil {
			return p.c.F
		}
		return p.deepEq(u.Elem(), *a, *b)
	case *types.Struct:
		if isBigInt(t) {
			return p.bigEq(x.(BigVal), y.(BigVal))
		}
		a, b := x.(Struct), y.(Struct)
		var cs []*Term
		for i := range a {
			e := p.deepEq(u.Field(i).Type(), a[i], b[i])
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return p.c.AndN(cs)
	case *types.Slice:
		a, b := x.([]Value), y.([]Value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return p.c.F
		}
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 {
			return p.eqBytes(p.sliceTerms(a), p.sliceTerms(b))
		}
		var cs []*Term
		for i := range a {
			e := p.deepEq(u.Elem(), a[i], b[i])
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return p.c.AndN(cs)
	case *types.Array:
		a, b := x.(Array), y.(Array)
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 {
			return p.eqBytes(p.sliceTerms(a), p.sliceTerms(b))
		}
		var cs []*Term
		for i := range a {
			e := p.deepEq(u.Elem(), a[i], b[i])
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return p.c.AndN(cs)
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.T == nil || b.T == nil {
			return p.c.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return p.c.F
		}
		return p.deepEq(a.T, a.V, b.V)
	case *types.Map:
		a, b := x.(*MapV), y.(*MapV)
		if a == nil || b == nil {
			return p.c.Bool((a == nil) == (b == nil))
		}
		if a.n != b.n {
			return p.c.F
		}
		var cs []*Term
		for _, e := range a.ents {
			f := p.mapFind(b, e.k)
			if f == nil {
				return p.c.F
			}
			cs = append(cs, p.deepEq(u.Elem(), e.v, f.v))
		}
		return p.c.AndN(cs)
	}
	return p.equals(t, x, y)
}
