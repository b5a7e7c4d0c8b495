package main

// Hash-consed bit-vector/boolean terms with an aggressive structural simplifier.
// Width 0 means boolean.  Wide constants are kept as big.Int.

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF
	OConcat
	OExtract
	OSext
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLshr
	OAshr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OHexd
	OJnum
)

var opSmt = map[Op]string{OConcat: "concat", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not"}

type Term struct {
	op     Op
	w      int
	hi, lo int
	u      uint64
	b      *big.Int // constants wider than 64 bits
	s      string
	a      []*Term
	id     int
	mx, mn *big.Int
}

type TermCtx struct {
	tab   map[string]*Term
	small [65][]*Term
	next  int
	buf   []byte
	T, F  *Term

	constHash map[string]*Term // family/value -> UF application with constant arguments
}

func NewCtx() *TermCtx {
	c := &TermCtx{}
	c.reset()
	return c
}

func (c *TermCtx) reset() {
	c.tab = make(map[string]*Term, 1<<14)
	c.constHash = map[string]*Term{}
	c.F = c.mk(&Term{op: OConst, u: 0})
	c.T = c.mk(&Term{op: OConst, u: 1})
}

func (c *TermCtx) mk(t *Term) *Term {
	b := c.buf[:0]
	b = append(b, byte(t.op))
	b = binary.AppendUvarint(b, uint64(t.w))
	switch t.op {
	case OConst:
		if t.b != nil {
			b = append(b, t.b.Bytes()...)
		} else {
			b = binary.AppendUvarint(b, t.u)
		}
	case OVar:
		b = append(b, t.s...)
	case OUF:
		b = append(b, t.s...)
		b = append(b, 0)
	case OExtract:
		b = binary.AppendUvarint(b, uint64(t.hi))
		b = binary.AppendUvarint(b, uint64(t.lo))
	}
	for _, x := range t.a {
		b = binary.AppendUvarint(b, uint64(x.id))
	}
	c.buf = b
	if r, ok := c.tab[string(b)]; ok {
		return r
	}
	c.next++
	t.id = c.next
	c.tab[string(b)] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << uint(w)) - 1
}

var one = big.NewInt(1)

func bigMask(w int) *big.Int {
	if w < len(bigMasks) {
		return bigMasks[w]
	}
	r := new(big.Int).Lsh(one, uint(w))
	return r.Sub(r, one)
}

// never modified
var bigMasks = func() []*big.Int {
	var r []*big.Int
	for w := 0; w < 4096; w++ {
		x := new(big.Int).Lsh(one, uint(w))
		r = append(r, x.Sub(x, one))
	}
	return r
}()

func (c *TermCtx) Bool(v bool) *Term {
	if v {
		return c.T
	}
	return c.F
}

func (c *TermCtx) Const(w int, v uint64) *Term {
	if w > 64 {
		return c.ConstBig(w, new(big.Int).SetUint64(v))
	}
	v &= mask(w)
	if v < 256 && w > 0 {
		t := &c.small[w]
		if *t == nil {
			*t = make([]*Term, 256)
		}
		if (*t)[v] == nil {
			(*t)[v] = c.mk(&Term{op: OConst, w: w, u: v})
		}
		return (*t)[v]
	}
	return c.mk(&Term{op: OConst, w: w, u: v})
}

func (c *TermCtx) ConstBig(w int, v *big.Int) *Term {
	if w <= 0 {
		panic("ConstBig width")
	}
	if w <= 64 && v.IsUint64() {
		return c.Const(w, v.Uint64())
	}
	m := new(big.Int).And(v, bigMask(w)) // And on negative big.Int is two's complement
	if w <= 64 {
		return c.mk(&Term{op: OConst, w: w, u: m.Uint64()})
	}
	return c.mk(&Term{op: OConst, w: w, b: m})
}

func (c *TermCtx) Var(name string, w int) *Term {
	return c.mk(&Term{op: OVar, w: w, s: name})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.u == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.u == 0 }
func (t *Term) isZero() bool {
	return t.op == OConst && t.u == 0 && (t.b == nil || t.b.Sign() == 0)
}
func (t *Term) isOnes() bool {
	if t.op != OConst {
		return false
	}
	if t.b != nil {
		return t.b.Cmp(bigMask(t.w)) == 0
	}
	return t.u == mask(t.w)
}
func (t *Term) Big() *big.Int {
	if t.op != OConst {
		panic("Big of non-const")
	}
	if t.b != nil {
		return t.b
	}
	return new(big.Int).SetUint64(t.u)
}
func (t *Term) S64() int64 {
	if t.w >= 64 {
		return int64(t.u)
	}
	sh := uint(64 - t.w)
	return int64(t.u<<sh) >> sh
}

// ufBounds gives unsigned bounds known for an uninterpreted family.
var ufBounds = map[string][2]*big.Int{}

var fieldQ, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

func init() {
	top := new(big.Int).Lsh(one, 248)
	q1 := new(big.Int).Sub(fieldQ, one)
	ufBounds["poseidon"] = [2]*big.Int{top, q1}
	ufBounds["b64d"] = [2]*big.Int{big.NewInt('+'), big.NewInt('z')}
	ufBounds["phash"] = [2]*big.Int{top, q1}
}

func (t *Term) umax() *big.Int {
	if t.mx == nil {
		t.bounds()
	}
	return t.mx
}
func (t *Term) umin() *big.Int {
	if t.mn == nil {
		t.bounds()
	}
	return t.mn
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

var bigZero = new(big.Int)

func (t *Term) bounds() {
	if t.mx != nil && t.mn != nil {
		return
	}
	var mx, mn *big.Int
	switch t.op {
	case OConst:
		mx = t.Big()
		mn = mx
	case OConcat:
		mx, mn = new(big.Int), new(big.Int)
		for _, x := range t.a {
			mx.Lsh(mx, uint(x.w))
			mx.Or(mx, x.umax())
			mn.Lsh(mn, uint(x.w))
			mn.Or(mn, x.umin())
		}
	case OIte:
		mx = maxB(t.a[1].umax(), t.a[2].umax())
		mn = minB(t.a[1].umin(), t.a[2].umin())
	case OHexd:
		if t.a[0].umax().Cmp(big.NewInt(9)) <= 0 {
			mn, mx = big.NewInt('0'), big.NewInt('9')
		} else {
			mn, mx = big.NewInt('0'), big.NewInt('f')
		}
	case OUF:
		if b, ok := ufBounds[ufFamily(t.s)]; ok {
			mn, mx = b[0], b[1]
		}
	case OAdd:
		s := new(big.Int).Add(t.a[0].umax(), t.a[1].umax())
		if s.BitLen() <= t.w {
			mx = s
			mn = new(big.Int).Add(t.a[0].umin(), t.a[1].umin())
		}
	case OSub:
		if t.a[0].umin().Cmp(t.a[1].umax()) >= 0 {
			mx = new(big.Int).Sub(t.a[0].umax(), t.a[1].umin())
			mn = new(big.Int).Sub(t.a[0].umin(), t.a[1].umax())
		}
	case OMul:
		s := new(big.Int).Mul(t.a[0].umax(), t.a[1].umax())
		if s.BitLen() <= t.w {
			mx = s
			mn = new(big.Int).Mul(t.a[0].umin(), t.a[1].umin())
		}
	case OAnd:
		mx = minB(t.a[0].umax(), t.a[1].umax())
		mn = bigZero
	case OUrem:
		if t.a[1].isConst() && !t.a[1].isZero() {
			mx = minB(new(big.Int).Sub(t.a[1].Big(), one), t.a[0].umax())
			mn = bigZero
		}
	case OUdiv:
		if t.a[1].isConst() && !t.a[1].isZero() {
			mx = new(big.Int).Div(t.a[0].umax(), t.a[1].Big())
			mn = bigZero
		}
	case OExtract:
		x := t.a[0]
		// the top slice of a bounded term
		if t.lo == 0 && x.umax().BitLen() <= t.hi+1 {
			mx, mn = x.umax(), x.umin()
		} else if t.hi == x.w-1 {
			mx = new(big.Int).Rsh(x.umax(), uint(t.lo))
			mn = new(big.Int).Rsh(x.umin(), uint(t.lo))
		}
	}
	if mx == nil {
		mn = bigZero
		mx = bigMask(t.w)
	}
	t.mx, t.mn = mx, mn
}

// ---- constructors

func (c *TermCtx) Not(x *Term) *Term {
	switch {
	case x.isTrue():
		return c.F
	case x.isFalse():
		return c.T
	case x.op == OBNot:
		return x.a[0]
	}
	return c.mk(&Term{op: OBNot, a: []*Term{x}})
}

func (c *TermCtx) And(x, y *Term) *Term {
	switch {
	case x.isFalse() || y.isFalse():
		return c.F
	case x.isTrue():
		return y
	case y.isTrue():
		return x
	case x == y:
		return x
	}
	if (x.op == OBNot && x.a[0] == y) || (y.op == OBNot && y.a[0] == x) {
		return c.F
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(&Term{op: OBAnd, a: []*Term{x, y}})
}

func (c *TermCtx) AndN(xs []*Term) *Term {
	var fl []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.isFalse() {
			return c.F
		}
		if x.isTrue() || seen[x.id] {
			continue
		}
		seen[x.id] = true
		fl = append(fl, x)
	}
	switch len(fl) {
	case 0:
		return c.T
	case 1:
		return fl[0]
	case 2:
		return c.And(fl[0], fl[1])
	}
	return c.mk(&Term{op: OBAnd, a: fl})
}

func (c *TermCtx) Or(x, y *Term) *Term {
	switch {
	case x.isTrue() || y.isTrue():
		return c.T
	case x.isFalse():
		return y
	case y.isFalse():
		return x
	case x == y:
		return x
	}
	if (x.op == OBNot && x.a[0] == y) || (y.op == OBNot && y.a[0] == x) {
		return c.T
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(&Term{op: OBOr, a: []*Term{x, y}})
}

func (c *TermCtx) Ite(g, x, y *Term) *Term {
	if g.isTrue() {
		return x
	}
	if g.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if g.op == OBNot {
		return c.Ite(g.a[0], y, x)
	}
	if x.w == 0 {
		if x.isTrue() {
			return c.Or(g, y)
		}
		if x.isFalse() {
			return c.And(c.Not(g), y)
		}
		if y.isTrue() {
			return c.Or(c.Not(g), x)
		}
		if y.isFalse() {
			return c.And(g, x)
		}
	}
	if y.op == OIte && y.a[0] == g {
		y = y.a[2]
	}
	if x.op == OIte && x.a[0] == g {
		x = x.a[1]
	}
	if x == y {
		return x
	}
	return c.mk(&Term{op: OIte, w: x.w, a: []*Term{g, x, y}})
}

func (c *TermCtx) Concat(xs ...*Term) *Term {
	var out []*Term
	push := func(t *Term) {
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.isConst() && t.isConst() {
				v := new(big.Int).Lsh(l.Big(), uint(t.w))
				v.Or(v, t.Big())
				out[len(out)-1] = c.ConstBig(l.w+t.w, v)
				return
			}
			if l.op == OExtract && t.op == OExtract && l.a[0] == t.a[0] && l.lo == t.hi+1 {
				out[len(out)-1] = c.Extract(l.a[0], l.hi, t.lo)
				return
			}
		}
		out = append(out, t)
	}
	for _, x := range xs {
		if x.op == OConcat {
			for _, y := range x.a {
				push(y)
			}
		} else {
			push(x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, x := range out {
		w += x.w
	}
	return c.mk(&Term{op: OConcat, w: w, a: out})
}

func (c *TermCtx) Zext(x *Term, w int) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		panic("zext")
	}
	return c.Concat(c.Const(w-x.w, 0), x)
}

func (c *TermCtx) Sext(x *Term, w int) *Term {
	if w == x.w {
		return x
	}
	if x.isConst() {
		v := x.Big()
		if v.Bit(x.w-1) == 1 {
			v = new(big.Int).Sub(v, new(big.Int).Lsh(one, uint(x.w)))
		}
		return c.ConstBig(w, v)
	}
	if x.umax().BitLen() < x.w {
		return c.Zext(x, w)
	}
	return c.mk(&Term{op: OSext, w: w, a: []*Term{x}})
}

func (c *TermCtx) Extract(x *Term, hi, lo int) *Term {
	if lo == 0 && hi == x.w-1 {
		return x
	}
	if hi < lo || hi >= x.w || lo < 0 {
		panic(fmt.Sprintf("extract %d %d of %d", hi, lo, x.w))
	}
	w := hi - lo + 1
	switch x.op {
	case OConst:
		return c.ConstBig(w, new(big.Int).Rsh(x.Big(), uint(lo)))
	case OExtract:
		return c.Extract(x.a[0], x.lo+hi, x.lo+lo)
	case OConcat:
		var parts []*Term
		pos := x.w
		for _, p := range x.a {
			top := pos - 1
			bot := pos - p.w
			pos = bot
			if bot > hi || top < lo {
				continue
			}
			h, l := top, bot
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			parts = append(parts, c.Extract(p, h-bot, l-bot))
		}
		return c.Concat(parts...)
	case OAnd:
		return c.BAnd(c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
	case OOr:
		return c.BOr(c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
	case OXor:
		return c.BXor(c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
	case ONot:
		return c.BNot(c.Extract(x.a[0], hi, lo))
	case OAdd:
		if lo == 0 && (x.a[1].isConst() || x.a[0].op != OAdd && x.a[1].op != OAdd) {
			return c.Add(c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0))
		}
	case OSub:
		if lo == 0 {
			return c.Sub(c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0))
		}
	case OSext:
		if hi < x.a[0].w {
			return c.Extract(x.a[0], hi, lo)
		}
	case OIte:
		if x.a[1].isConst() || x.a[2].isConst() || x.a[1].op == OIte || x.a[2].op == OIte {
			return c.Ite(x.a[0], c.Extract(x.a[1], hi, lo), c.Extract(x.a[2], hi, lo))
		}
	}
	if x.umax().BitLen() <= lo {
		return c.Const(w, 0)
	}
	return c.mk(&Term{op: OExtract, w: w, hi: hi, lo: lo, a: []*Term{x}})
}

func pieceBounds(x *Term, m map[int]bool) {
	if x.op == OConcat {
		pos := x.w
		for _, p := range x.a {
			pos -= p.w
			m[pos] = true
		}
	} else {
		m[0] = true
	}
}

func hasConstPiece(x *Term) bool {
	if x.isConst() {
		return true
	}
	if x.op == OConcat {
		for _, p := range x.a {
			if p.isConst() {
				return true
			}
		}
	}
	return false
}

// splitBitwise applies a bitwise op piecewise where that exposes constants.
func (c *TermCtx) splitBitwise(x, y *Term, f func(a, b *Term) *Term) *Term {
	if x.op != OConcat && y.op != OConcat {
		return nil
	}
	if !hasConstPiece(x) && !hasConstPiece(y) {
		return nil
	}
	m := map[int]bool{}
	pieceBounds(x, m)
	pieceBounds(y, m)
	if len(m) > 80 || len(m) < 2 {
		return nil
	}
	var parts []*Term
	hi := x.w - 1
	for p := x.w - 1; p >= 0; p-- {
		if m[p] {
			parts = append(parts, f(c.Extract(x, hi, p), c.Extract(y, hi, p)))
			hi = p - 1
		}
	}
	return c.Concat(parts...)
}

type run struct {
	one    bool
	hi, lo int
}

func constRuns(x *Term, max int) []run {
	v := x.Big()
	var rs []run
	i := x.w - 1
	for i >= 0 {
		b := v.Bit(i)
		j := i
		for j >= 0 && v.Bit(j) == b {
			j--
		}
		rs = append(rs, run{b == 1, i, j + 1})
		if len(rs) > max {
			return nil
		}
		i = j
	}
	return rs
}

func (c *TermCtx) BAnd(x, y *Term) *Term {
	if y.isConst() {
		x, y = y, x
	}
	if x.isConst() {
		if y.isConst() {
			return c.ConstBig(x.w, new(big.Int).And(x.Big(), y.Big()))
		}
		if x.isZero() {
			return x
		}
		if x.isOnes() {
			return y
		}
		if rs := constRuns(x, 8); rs != nil {
			var parts []*Term
			for _, r := range rs {
				if r.one {
					parts = append(parts, c.Extract(y, r.hi, r.lo))
				} else {
					parts = append(parts, c.Const0(r.hi-r.lo+1))
				}
			}
			return c.Concat(parts...)
		}
	}
	if x == y {
		return x
	}
	if r := c.splitBitwise(x, y, c.BAnd); r != nil {
		return r
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(&Term{op: OAnd, w: x.w, a: []*Term{x, y}})
}

func (c *TermCtx) Const0(w int) *Term { return c.ConstBig(w, bigZero) }
func (c *TermCtx) Ones(w int) *Term   { return c.ConstBig(w, bigMask(w)) }

func (c *TermCtx) BOr(x, y *Term) *Term {
	if y.isConst() {
		x, y = y, x
	}
	if x.isConst() {
		if y.isConst() {
			return c.ConstBig(x.w, new(big.Int).Or(x.Big(), y.Big()))
		}
		if x.isZero() {
			return y
		}
		if x.isOnes() {
			return x
		}
		if rs := constRuns(x, 8); rs != nil {
			var parts []*Term
			for _, r := range rs {
				if !r.one {
					parts = append(parts, c.Extract(y, r.hi, r.lo))
				} else {
					parts = append(parts, c.Ones(r.hi-r.lo+1))
				}
			}
			return c.Concat(parts...)
		}
	}
	if x == y {
		return x
	}
	if r := c.splitBitwise(x, y, c.BOr); r != nil {
		return r
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(&Term{op: OOr, w: x.w, a: []*Term{x, y}})
}

func (c *TermCtx) BXor(x, y *Term) *Term {
	if y.isConst() {
		x, y = y, x
	}
	if x == y {
		return c.Const0(x.w)
	}
	if x.isConst() {
		if y.isConst() {
			return c.ConstBig(x.w, new(big.Int).Xor(x.Big(), y.Big()))
		}
		if x.isZero() {
			return y
		}
		if x.isOnes() {
			return c.BNot(y)
		}
	}
	if r := c.splitBitwise(x, y, c.BXor); r != nil {
		return r
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(&Term{op: OXor, w: x.w, a: []*Term{x, y}})
}

func (c *TermCtx) BNot(x *Term) *Term {
	if x.isConst() {
		return c.ConstBig(x.w, new(big.Int).Xor(x.Big(), bigMask(x.w)))
	}
	if x.op == ONot {
		return x.a[0]
	}
	return c.mk(&Term{op: ONot, w: x.w, a: []*Term{x}})
}

func (c *TermCtx) Neg(x *Term) *Term { return c.Sub(c.Const0(x.w), x) }

func (c *TermCtx) Add(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		if x.w <= 64 {
			return c.Const(x.w, x.u+y.u)
		}
		return c.ConstBig(x.w, new(big.Int).Add(x.Big(), y.Big()))
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isZero() {
		return x
	}
	if y.isConst() {
		if x.op == OAdd && x.a[1].isConst() {
			return c.Add(x.a[0], c.Add(x.a[1], y))
		}
		if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
			return c.Ite(x.a[0], c.Add(x.a[1], y), c.Add(x.a[2], y))
		}
	}
	if x.op == OSub && x.a[1] == y {
		return x.a[0]
	}
	if y.op == OSub && y.a[1] == x {
		return y.a[0]
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return c.mk(&Term{op: OAdd, w: x.w, a: []*Term{x, y}})
}

func (c *TermCtx) Sub(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		if x.w <= 64 {
			return c.Const(x.w, x.u-y.u)
		}
		return c.ConstBig(x.w, new(big.Int).Sub(x.Big(), y.Big()))
	}
	if y.isConst() {
		return c.Add(x, c.ConstBig(x.w, new(big.Int).Neg(y.Big())))
	}
	if x == y {
		return c.Const0(x.w)
	}
	if x.op == OAdd {
		if x.a[0] == y {
			return x.a[1]
		}
		if x.a[1] == y {
			return x.a[0]
		}
		if y.op == OAdd && x.a[1].isConst() && y.a[1].isConst() {
			return c.Add(c.Sub(x.a[0], y.a[0]), c.Sub(x.a[1], y.a[1]))
		}
	}
	return c.mk(&Term{op: OSub, w: x.w, a: []*Term{x, y}})
}

func (c *TermCtx) Mul(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		if x.w <= 64 {
			return c.Const(x.w, x.u*y.u)
		}
		return c.ConstBig(x.w, new(big.Int).Mul(x.Big(), y.Big()))
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if y.isZero() {
			return y
		}
		v := y.Big()
		if v.Cmp(one) == 0 {
			return x
		}
		if tz := int(v.TrailingZeroBits()); v.BitLen() == tz+1 {
			return c.Shl(x, c.Const(x.w, uint64(tz)))
		}
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return c.mk(&Term{op: OMul, w: x.w, a: []*Term{x, y}})
}

// DivRem: callers guarantee y != 0.
func (c *TermCtx) DivRem(op Op, x, y *Term) *Term {
	signed := op == OSdiv || op == OSrem
	if signed && x.w > 1 && x.umax().BitLen() < x.w && y.umax().BitLen() < y.w {
		signed = false
		if op == OSdiv {
			op = OUdiv
		} else {
			op = OUrem
		}
	}
	if signed && y.isConst() && !y.isZero() && y.umax().BitLen() < y.w && x.op == OSub && x.a[0].isZero() && nonNeg(x.a[1]) {
		return c.Neg(c.DivRem(op, x.a[1], y))
	}
	if !signed && y.isConst() && !y.isZero() && (x.op == OAdd || x.op == OMul) {
		if q, r, ok := c.divSum(x, y.Big()); ok {
			if op == OUdiv {
				return q
			}
			return r
		}
	}
	if x.isConst() && y.isConst() && !y.isZero() {
		xb, yb := x.Big(), y.Big()
		if signed {
			xb, yb = toSigned(xb, x.w), toSigned(yb, y.w)
		}
		if op == OUdiv || op == OSdiv {
			return c.ConstBig(x.w, new(big.Int).Quo(xb, yb))
		}
		return c.ConstBig(x.w, new(big.Int).Rem(xb, yb))
	}
	if !signed && y.isConst() && !y.isZero() {
		v := y.Big()
		if x.umax().Cmp(v) < 0 {
			if op == OUdiv {
				return c.Const0(x.w)
			}
			return x
		}
		if tz := int(v.TrailingZeroBits()); v.BitLen() == tz+1 {
			if tz == 0 {
				if op == OUdiv {
					return x
				}
				return c.Const0(x.w)
			}
			if op == OUdiv {
				return c.Zext(c.Extract(x, x.w-1, tz), x.w)
			}
			return c.Zext(c.Extract(x, tz-1, 0), x.w)
		}
	}
	return c.mk(&Term{op: op, w: x.w, a: []*Term{x, y}})
}

// divSum divides a sum that does not wrap around by v when all of it but a
// remainder below v is made of multiples of v.
func (c *TermCtx) divSum(x *Term, v *big.Int) (*Term, *Term, bool) {
	total, rmax := new(big.Int), new(big.Int)
	q, r := c.Const0(x.w), c.Const0(x.w)
	any := false
	for _, t := range summands(x, nil) {
		total.Add(total, t.umax())
		if t.op == OMul && t.a[1].isConst() {
			k, m := new(big.Int).QuoRem(t.a[1].Big(), v, new(big.Int))
			if m.Sign() == 0 {
				if new(big.Int).Mul(t.a[0].umax(), t.a[1].Big()).BitLen() > x.w {
					return nil, nil, false
				}
				q, any = c.Add(q, c.Mul(t.a[0], c.ConstBig(x.w, k))), true
				continue
			}
		}
		rmax.Add(rmax, t.umax())
		r = c.Add(r, t)
	}
	if !any || total.BitLen() > x.w || rmax.Cmp(v) >= 0 {
		return nil, nil, false
	}
	return q, r, true
}

func toSigned(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(one, uint(w)))
	}
	return v
}

func (c *TermCtx) Shl(x, n *Term) *Term {
	if n.isConst() {
		k := n.Big()
		if k.Cmp(big.NewInt(int64(x.w))) >= 0 {
			return c.Const0(x.w)
		}
		s := int(k.Int64())
		if s == 0 {
			return x
		}
		return c.Concat(c.Extract(x, x.w-1-s, 0), c.Const0(s))
	}
	if x.isZero() {
		return x
	}
	return c.mk(&Term{op: OShl, w: x.w, a: []*Term{x, n}})
}

func (c *TermCtx) Lshr(x, n *Term) *Term {
	if n.isConst() {
		k := n.Big()
		if k.Cmp(big.NewInt(int64(x.w))) >= 0 {
			return c.Const0(x.w)
		}
		s := int(k.Int64())
		if s == 0 {
			return x
		}
		return c.Concat(c.Const0(s), c.Extract(x, x.w-1, s))
	}
	if x.isZero() {
		return x
	}
	return c.mk(&Term{op: OLshr, w: x.w, a: []*Term{x, n}})
}

func (c *TermCtx) Ashr(x, n *Term) *Term {
	if x.umax().BitLen() < x.w {
		return c.Lshr(x, n)
	}
	if n.isConst() {
		k := n.Big()
		s := x.w - 1
		if k.Cmp(big.NewInt(int64(x.w))) < 0 {
			s = int(k.Int64())
		}
		if s == 0 {
			return x
		}
		if x.isConst() {
			return c.ConstBig(x.w, new(big.Int).Rsh(toSigned(x.Big(), x.w), uint(s)))
		}
		return c.Sext(c.Extract(x, x.w-1, s), x.w)
	}
	return c.mk(&Term{op: OAshr, w: x.w, a: []*Term{x, n}})
}

func isHashUF(t *Term) bool {
	return t.op == OUF && strings.HasPrefix(t.s, "h!") || t.op == OUF && t.s == "poseidon"
}

// hash family of an injective function: name up to the length suffix
func ufFamily(s string) string {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		return s[:i]
	}
	return s
}

var injective = map[string]bool{"poseidon": true, "phash": true, "sha256": true, "keccak": true, "b58": true}

func (c *TermCtx) UF(name string, w int, args ...*Term) *Term {
	return c.mk(&Term{op: OUF, w: w, s: name, a: args})
}

func (c *TermCtx) Hexd(n *Term) *Term {
	if n.isConst() {
		return c.Const(8, uint64("0123456789abcdef"[n.u]))
	}
	return c.mk(&Term{op: OHexd, w: 8, a: []*Term{n}})
}

func (c *TermCtx) Jnum(x *Term, signed bool) *Term {
	s := "u"
	if signed {
		s = "s"
	}
	return c.mk(&Term{op: OJnum, w: 8, s: s, a: []*Term{x}})
}

func hexVal(u uint64) (uint64, bool) {
	switch {
	case u >= '0' && u <= '9':
		return u - '0', true
	case u >= 'a' && u <= 'f':
		return u - 'a' + 10, true
	}
	return 0, false
}

func (c *TermCtx) Eq(x, y *Term) *Term {
	if x == y {
		return c.T
	}
	if x.w != y.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", x.w, y.w))
	}
	if x.w == 0 {
		if x.isConst() {
			x, y = y, x
		}
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return c.Not(x)
		}
		if x.op == OBNot && x.a[0] == y || y.op == OBNot && y.a[0] == x {
			return c.F
		}
	} else {
		if x.isConst() && y.isConst() {
			return c.F
		}
		if x.op == OUF && y.op == OUF {
			fx, fy := ufFamily(x.s), ufFamily(y.s)
			if fx == fy && injective[fx] {
				if x.s != y.s {
					return c.F
				}
				var cs []*Term
				for i := range x.a {
					e := c.Eq(x.a[i], y.a[i])
					if e.isFalse() {
						return e
					}
					cs = append(cs, e)
				}
				return c.AndN(cs)
			}
		}
		if x.op == OJnum || y.op == OJnum {
			if x.op == OJnum && y.op == OJnum && x.a[0].w == y.a[0].w && x.s == y.s {
				return c.Eq(x.a[0], y.a[0])
			}
			return c.jnumEq(x, y)
		}
		if x.op == OUF && x.s == "b64d" && y.op == OUF && y.s == "b64d" {
			return c.Eq(x.a[0], y.a[0])
		}
		if x.op == OHexd && y.op == OHexd {
			return c.Eq(x.a[0], y.a[0])
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && isHashLike(x) {
			if r, ok := c.constHash[ufFamily(x.s)+"/"+y.Big().Text(62)]; ok {
				if r.s != x.s {
					return c.F
				}
				var cs []*Term
				for i := range x.a {
					e := c.Eq(x.a[i], r.a[i])
					if e.isFalse() {
						return e
					}
					cs = append(cs, e)
				}
				return c.AndN(cs)
			}
		}
		if x.umax().Cmp(y.umin()) < 0 || y.umax().Cmp(x.umin()) < 0 {
			return c.F
		}
		if x.op == OAdd || y.op == OAdd {
			if r := c.sumEq(x, y); r != nil {
				return r
			}
		}
		if y.isConst() {
			if x.op == OUF && x.s == "b64d" {
				if i := strings.IndexByte(b64a, byte(y.u)); i >= 0 {
					return c.Eq(x.a[0], c.Const(6, uint64(i)))
				}
				return c.F
			}
			switch x.op {
			case OHexd:
				if v, ok := hexVal(y.u); ok {
					return c.Eq(x.a[0], c.Const(4, v))
				}
				return c.F
			case OAdd:
				if x.a[1].isConst() {
					return c.Eq(x.a[0], c.Sub(y, x.a[1]))
				}
			case ONot:
				return c.Eq(x.a[0], c.BNot(y))
			}
		}
		if x.op == OIte || y.op == OIte {
			if x.op != OIte {
				x, y = y, x
			}
			if y.isConst() || x.a[1] == y || x.a[2] == y || x.a[1].isConst() && x.a[2].isConst() || isHashLike(x) || isHashLike(y) {
				p, q := c.Eq(x.a[1], y), c.Eq(x.a[2], y)
				if p.isConst() || q.isConst() {
					return c.Ite(x.a[0], p, q)
				}
			}
			if y.op == OIte && x.a[0] == y.a[0] {
				return c.Ite(x.a[0], c.Eq(x.a[1], y.a[1]), c.Eq(x.a[2], y.a[2]))
			}
		}
		if x.op == OConcat || y.op == OConcat {
			if x.op != OConcat {
				x, y = y, x
			}
			split := y.isConst()
			if y.op == OConcat {
				split = true
			}
			if !split && hasConstPiece(x) && y.op != OUF {
				split = true
			}
			if split {
				m := map[int]bool{}
				pieceBounds(x, m)
				if y.op == OConcat {
					pieceBounds(y, m)
				}
				var ps [][2]*Term
				hi := x.w - 1
				for p := x.w - 1; p >= 0; p-- {
					if m[p] {
						ps = append(ps, [2]*Term{c.Extract(x, hi, p), c.Extract(y, hi, p)})
						hi = p - 1
					}
				}
				var cs []*Term
				for _, q := range c.fuse(ps) {
					e := c.Eq(q[0], q[1])
					if e.isFalse() {
						return e
					}
					cs = append(cs, e)
				}
				return c.AndN(cs)
			}
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(&Term{op: OEq, a: []*Term{x, y}})
}

func summands(t *Term, out []*Term) []*Term {
	if t.op == OAdd {
		return summands(t.a[1], summands(t.a[0], out))
	}
	return append(out, t)
}

// sumEq cancels summands common to both sides, and splits a sum that cannot
// wrap and equals zero.
func (c *TermCtx) sumEq(x, y *Term) *Term {
	xs, ys := summands(x, nil), summands(y, nil)
	cnt := map[*Term]int{}
	for _, t := range ys {
		cnt[t]++
	}
	var l, r []*Term
	n := 0
	for _, t := range xs {
		if cnt[t] > 0 {
			cnt[t]--
			n++
		} else {
			l = append(l, t)
		}
	}
	for _, t := range ys {
		if cnt[t] > 0 {
			cnt[t]--
			r = append(r, t)
		}
	}
	sum := func(ts []*Term) *Term {
		s := c.Const0(x.w)
		for i, t := range ts {
			if i == 0 {
				s = t
			} else {
				s = c.Add(s, t)
			}
		}
		return s
	}
	if n > 0 {
		return c.Eq(sum(l), sum(r))
	}
	if y.isConst() && y.Big().Sign() == 0 {
		tot := new(big.Int)
		for _, t := range xs {
			tot.Add(tot, t.umax())
		}
		if tot.BitLen() <= x.w {
			var cs []*Term
			for _, t := range xs {
				cs = append(cs, c.Eq(t, c.Const0(t.w)))
			}
			return c.AndN(cs)
		}
	}
	return nil
}

// fuse joins piecewise comparisons that together compare contiguous parts of
// the same terms, whatever order the pieces come in (byte-reversed values).
func (c *TermCtx) fuse(ps [][2]*Term) [][2]*Term {
	type part struct {
		lo, w int
		o     *Term // the other side's piece when it is a constant
	}
	base := func(t *Term) (*Term, int) {
		if t.op == OExtract {
			return t.a[0], t.lo
		}
		return t, 0
	}
	groups := map[[3]int][]part{}
	var order [][3]int
	var r [][2]*Term
	bases := map[int]*Term{}
	for _, q := range ps {
		a, b := q[0], q[1]
		if a.isConst() {
			a, b = b, a
		}
		if a.isConst() || a.op == OConcat || b.op == OConcat {
			r = append(r, q)
			continue
		}
		ba, la := base(a)
		bases[ba.id] = ba
		var k [3]int
		if b.isConst() {
			k = [3]int{ba.id, -1, 0}
		} else {
			bb, lb := base(b)
			bases[bb.id] = bb
			k = [3]int{ba.id, bb.id, lb - la}
			if bb.id < ba.id {
				k = [3]int{bb.id, ba.id, la - lb}
				la = lb
			}
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], part{la, a.w, b})
	}
	for _, k := range order {
		g := groups[k]
		sort.SliceStable(g, func(i, j int) bool { return g[i].lo < g[j].lo })
		for i := 0; i < len(g); {
			j := i + 1
			hi := g[i].lo + g[i].w - 1
			cs := []*Term{g[i].o}
			for j < len(g) && g[j].lo == hi+1 {
				hi = g[j].lo + g[j].w - 1
				cs = append([]*Term{g[j].o}, cs...)
				j++
			}
			l := c.Extract(bases[k[0]], hi, g[i].lo)
			if k[1] < 0 {
				r = append(r, [2]*Term{l, c.Concat(cs...)})
			} else {
				r = append(r, [2]*Term{l, c.Extract(bases[k[1]], hi+k[2], g[i].lo+k[2])})
			}
			i = j
		}
	}
	return r
}

// rawEq builds an equality without simplification.
func (c *TermCtx) rawEq(x, y *Term) *Term { return c.mk(&Term{op: OEq, a: []*Term{x, y}}) }

// jnumEq compares an opaque number token with something else.
func (c *TermCtx) jnumEq(x, y *Term) *Term {
	if x.op != OJnum {
		x, y = y, x
	}
	if y.op == OJnum {
		w := max(x.a[0].w, y.a[0].w) + 1
		ext := func(t *Term) *Term {
			if t.s == "s" {
				return c.Sext(t.a[0], w)
			}
			return c.Zext(t.a[0], w)
		}
		return c.Eq(ext(x), ext(y))
	}
	if y.isConst() && (y.u >= '0' && y.u <= '9' || y.u == '-') || !y.isConst() && y.op != OHexd {
		panic(pathEnd{EndInconclusive, "unsupported: comparison with the digits of an opaque number"})
	}
	return c.F
}

func isHashLike(t *Term) bool { return t.op == OUF && injective[ufFamily(t.s)] }

func leadZeros(x *Term) int {
	return x.w - x.umax().BitLen()
}

func (c *TermCtx) Ult(x, y *Term) *Term {
	if x == y {
		return c.F
	}
	if x.umax().Cmp(y.umin()) < 0 {
		return c.T
	}
	if x.umin().Cmp(y.umax()) >= 0 {
		return c.F
	}
	if k := min(leadZeros(x), leadZeros(y)); k > 0 && k < x.w {
		return c.Ult(c.Extract(x, x.w-1-k, 0), c.Extract(y, y.w-1-k, 0))
	}
	if y.isConst() && y.Big().Cmp(one) == 0 {
		return c.Eq(x, c.Const0(x.w))
	}
	return c.mk(&Term{op: OUlt, a: []*Term{x, y}})
}

func (c *TermCtx) Ule(x, y *Term) *Term { return c.Not(c.Ult(y, x)) }

func nonNeg(x *Term) bool { return x.umax().BitLen() < x.w }

func (c *TermCtx) Slt(x, y *Term) *Term {
	if x == y {
		return c.F
	}
	if x.isConst() && y.isConst() {
		return c.Bool(toSigned(x.Big(), x.w).Cmp(toSigned(y.Big(), y.w)) < 0)
	}
	nx, ny := nonNeg(x), nonNeg(y)
	if nx && ny {
		return c.Ult(x, y)
	}
	if nx && y.isConst() { // y negative constant
		return c.F
	}
	if ny && x.isConst() {
		return c.T
	}
	if y.isZero() {
		return c.Eq(c.Extract(x, x.w-1, x.w-1), c.Const(1, 1))
	}
	return c.mk(&Term{op: OSlt, a: []*Term{x, y}})
}
func (c *TermCtx) Sle(x, y *Term) *Term { return c.Not(c.Slt(y, x)) }

var _ = bits.Len

// ---- printing

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.u == 1)
		}
		return fmt.Sprintf("%s:%d", t.Big().Text(16), t.w)
	case OVar:
		return t.s
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	var sb strings.Builder
	n := opSmt[t.op]
	switch t.op {
	case OUF:
		n = t.s
	case OExtract:
		n = fmt.Sprintf("x[%d:%d]", t.hi, t.lo)
	case OHexd:
		n = "hexd"
	case OJnum:
		n = "jnum"
	case OSext:
		n = "sext"
	}
	sb.WriteString("(" + n)
	for i, a := range t.a {
		if i > 12 {
			sb.WriteString(" ...")
			break
		}
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}
