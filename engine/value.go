package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Value representation (after x/tools/go/ssa/interp, with symbolic scalars):
//
//	integers, booleans        *Term
//	floats                    float64
//	strings                   string (concrete) or *SymStr
//	pointers                  *Value
//	structs / arrays          Struct / Array (slices of cells)
//	slices                    []Value (native aliasing and capacity)
//	interfaces                Iface
//	maps                      *MapV
//	functions                 *ssa.Function, *Closure, *ssa.Builtin, *NativeFn
//	math/big.Int              BigVal (immutable), held in a cell
type Value interface{}
type Struct []Value
type Array []Value
type Tuple []Value
type Iface struct {
	T types.Type
	V Value
}
type Closure struct {
	Fn  *ssa.Function
	Env []Value
}
type NativeFn struct {
	Name string
	F    func(p *Path, args []Value) Value
}
type SymStr struct{ B []*Term }
type BigVal struct {
	Neg *Term // boolean
	Mag *Term // bit-vector of any width >= 1
}
type UPtr struct{ V Value } // unsafe.Pointer
type Opaque struct{ S string }

type mapEnt struct {
	k, v Value
	kt   *Term // key as a single term when scalar-flattenable
	dead bool
}
type MapV struct {
	ents []*mapEnt
	idx  map[string]*mapEnt // concrete-key index
	kt   types.Type
	n    int
	sym  bool // some key is not concrete
}

type ChanV struct {
	buf         []Value
	cap         int
	closed      bool
	sent, recvd int
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isBigInt(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		return o.Name() == "Int" && o.Pkg() != nil && o.Pkg().Path() == "math/big"
	}
	return false
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (p *Path) zero(t types.Type) Value {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if isBigInt(t) {
		return BigVal{p.c.F, p.c.Const(1, 0)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			return p.c.Const(w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return p.c.F
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UnsafePointer:
			return UPtr{(*Value)(nil)}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		s := make(Array, n)
		if n > 0 {
			e := u.Elem()
			z := p.zero(e)
			switch z.(type) {
			case Struct, Array:
				s[0] = z
				for i := 1; i < n; i++ {
					s[i] = p.zero(e)
				}
			default:
				for i := range s {
					s[i] = z
				}
			}
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = p.zero(u.At(i).Type())
		}
		return s
	}
	panic(fmt.Sprintf("zero: %v", t))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

// store writes v into the cell, element by element so that interior pointers
// stay valid.
func store(addr *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if cur, ok := (*addr).(Struct); ok && len(cur) == len(x) {
			for i := range x {
				store(&cur[i], x[i])
			}
			return
		}
		*addr = copyVal(v)
	case Array:
		if cur, ok := (*addr).(Array); ok && len(cur) == len(x) {
			if len(x) > 0 && &cur[0] == &x[0] {
				return
			}
			for i := range x {
				store(&cur[i], x[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func (p *Path) constVal(k *ssa.Const) Value {
	if v, ok := p.w.consts[k]; ok {
		return v
	}
	v := p.constVal0(k)
	switch v.(type) {
	case Struct, Array:
		return v
	}
	p.w.consts[k] = v
	return v
}

func (p *Path) constVal0(k *ssa.Const) Value {
	if k.Value == nil {
		return p.zero(k.Type())
	}
	t := k.Type()
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	if w, _, ok := intInfo(t); ok {
		x := constant.ToInt(k.Value)
		if i, exact := constant.Int64Val(x); exact {
			return p.c.Const(w, uint64(i))
		}
		if u, exact := constant.Uint64Val(x); exact {
			return p.c.Const(w, u)
		}
		b, _ := new(big.Int).SetString(x.ExactString(), 10)
		return p.c.ConstBig(w, b)
	}
	switch {
	case isBool(t):
		return p.c.Bool(constant.BoolVal(k.Value))
	case isString(t):
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		i, _ := constant.Int64Val(k.Value)
		return string(rune(i))
	case isFloat(t):
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		return f
	}
	p.unsupported("const " + k.String())
	return nil
}

// ---- strings

func (p *Path) strBytes(v Value) []*Term {
	switch s := v.(type) {
	case string:
		r := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = p.byteC(s[i])
		}
		return r
	case *SymStr:
		return s.B
	}
	p.unsupported(fmt.Sprintf("strBytes %T", v))
	return nil
}

func (p *Path) byteC(b byte) *Term { return p.c.Const(8, uint64(b)) }

func mkStr(bs []*Term) Value {
	for _, b := range bs {
		if !b.isConst() {
			return &SymStr{append([]*Term(nil), bs...)}
		}
	}
	r := make([]byte, len(bs))
	for i, b := range bs {
		r[i] = byte(b.u)
	}
	return string(r)
}

func (p *Path) bytesToSlice(bs []*Term) []Value {
	r := make([]Value, len(bs))
	for i, b := range bs {
		r[i] = b
	}
	return r
}

func (p *Path) sliceTerms(v Value) []*Term {
	var xs []Value
	switch s := v.(type) {
	case []Value:
		xs = s
	case Array:
		xs = []Value(s)
	default:
		p.unsupported(fmt.Sprintf("sliceTerms %T", v))
	}
	r := make([]*Term, len(xs))
	for i, x := range xs {
		r[i] = x.(*Term)
	}
	return r
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func (p *Path) catBytes(bs []*Term) *Term {
	return p.c.Concat(bs...)
}

// eqBytes compares two equally long byte sequences as one wide equality.
func (p *Path) eqBytes(a, b []*Term) *Term {
	if len(a) != len(b) {
		return p.c.F
	}
	if len(a) == 0 {
		return p.c.T
	}
	// little-endian stored wide values merge when reversed: try both directions
	x, y := p.catBytes(a), p.catBytes(b)
	e := p.c.Eq(x, y)
	if e.isConst() {
		return e
	}
	if len(a) > 1 && (x.op == OConcat || y.op == OConcat) {
		rx, ry := p.catBytes(rev(a)), p.catBytes(rev(b))
		if cplx(rx)+cplx(ry) < cplx(x)+cplx(y) {
			return p.c.Eq(rx, ry)
		}
	}
	return e
}

func cplx(t *Term) int {
	if t.op == OConcat {
		return len(t.a)
	}
	return 1
}

func rev(a []*Term) []*Term {
	r := make([]*Term, len(a))
	for i := range a {
		r[len(a)-1-i] = a[i]
	}
	return r
}

// ---- equality of Go values, as a boolean term

func (p *Path) equals(t types.Type, x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		return p.c.Eq(a, y.(*Term))
	case string:
		if b, ok := y.(string); ok {
			return p.c.Bool(a == b)
		}
		return p.eqBytes(p.strBytes(x), p.strBytes(y))
	case *SymStr:
		return p.eqBytes(p.strBytes(x), p.strBytes(y))
	case float64:
		return p.c.Bool(a == y.(float64))
	case *Value:
		b, ok := y.(*Value)
		return p.c.Bool(ok && a == b)
	case UPtr:
		return p.c.Bool(a == y.(UPtr))
	case Struct:
		b := y.(Struct)
		st, _ := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range a {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			e := p.equals(ft, a[i], b[i])
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return p.c.AndN(cs)
	case Array:
		b := y.(Array)
		if len(a) > 0 {
			if t0, ok := a[0].(*Term); ok && t0.w == 8 {
				return p.eqBytes(p.sliceTerms(a), p.sliceTerms(b))
			}
		}
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		var cs []*Term
		for i := range a {
			e := p.equals(et, a[i], b[i])
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return p.c.AndN(cs)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			p.unsupported("iface compare")
		}
		if a.T == nil || b.T == nil {
			return p.c.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return p.c.F
		}
		if !types.Comparable(a.T) {
			p.goPanicStr("runtime error: comparing uncomparable type " + a.T.String())
		}
		return p.equals(a.T, a.V, b.V)
	case *MapV:
		b, _ := y.(*MapV)
		return p.c.Bool(a == b)
	case *ChanV:
		b, _ := y.(*ChanV)
		return p.c.Bool(a == b)
	case []Value: // only against nil
		b, _ := y.([]Value)
		return p.c.Bool((a == nil) && (b == nil))
	case BigVal:
		b := y.(BigVal)
		return p.bigEq(a, b)
	case *ssa.Function, *Closure, *NativeFn:
		return p.c.Bool(isNilFn(x) && isNilFn(y))
	}
	p.unsupported(fmt.Sprintf("equals %T", x))
	return nil
}

func isNilFn(v Value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case *Closure:
		return f == nil
	case *NativeFn:
		return f == nil
	case nil:
		return true
	}
	return false
}

// ---- maps

// keyStr gives a canonical string for a fully concrete key.
func (p *Path) keyStr(v Value) (string, bool) {
	switch k := v.(type) {
	case *Term:
		if k.isConst() {
			return fmt.Sprintf("%d:%s", k.w, k.Big().Text(16)), true
		}
		return "", false
	case string:
		return "s" + k, true
	case *SymStr:
		return "", false
	case float64:
		return fmt.Sprint(k), true
	case *Value:
		return fmt.Sprintf("%p", k), true
	case Struct:
		r := "{"
		for _, f := range k {
			s, ok := p.keyStr(f)
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r, true
	case Array:
		r := "["
		for _, f := range k {
			s, ok := p.keyStr(f)
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r, true
	case Iface:
		if k.T == nil {
			return "nil", true
		}
		s, ok := p.keyStr(k.V)
		return k.T.String() + s, ok
	}
	return "", false
}

// keyTerm flattens byte-array keys into one wide term.
func (p *Path) keyTerm(v Value) *Term {
	switch k := v.(type) {
	case *Term:
		return k
	case Array:
		if len(k) > 0 {
			if t, ok := k[0].(*Term); ok && t.w == 8 {
				ts := p.sliceTerms(k)
				x := p.catBytes(ts)
				if x.op == OConcat {
					if y := p.catBytes(rev(ts)); cplx(y) < cplx(x) {
						return p.c.Concat(y, p.c.Const(1, 0)) // tag: reversed orientation
					}
				}
				return x
			}
		}
	}
	return nil
}

func (p *Path) mapFind(m *MapV, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	ks, conc := p.keyStr(k)
	if conc {
		if e, ok := m.idx[ks]; ok {
			return e
		}
		if !m.sym {
			return nil
		}
	}
	kt := p.keyTerm(k)
	var cand []*mapEnt
	var conds []*Term
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		var c *Term
		if kt != nil && e.kt != nil && kt.w == e.kt.w {
			c = p.c.Eq(kt, e.kt)
		} else {
			c = p.equals(m.kt, k, e.k)
		}
		if c.isTrue() {
			return e
		}
		if c.isFalse() {
			continue
		}
		cand = append(cand, e)
		conds = append(conds, c)
	}
	for i, e := range cand {
		if p.branch(conds[i]) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *MapV, k, v Value) {
	if m == nil {
		p.goPanicStr("assignment to entry in nil map")
	}
	if e := p.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v)}
	if ks, ok := p.keyStr(k); ok {
		m.idx[ks] = e
	} else {
		m.sym = true
	}
	e.kt = p.keyTerm(e.k)
	m.ents = append(m.ents, e)
	m.n++
}

func (p *Path) mapDelete(m *MapV, k Value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	for ks, x := range m.idx {
		if x == e {
			delete(m.idx, ks)
		}
	}
	var live []*mapEnt
	for _, x := range m.ents {
		if !x.dead {
			live = append(live, x)
		}
	}
	m.ents = live
}

func newMap(kt types.Type) *MapV { return &MapV{idx: map[string]*mapEnt{}, kt: kt} }
