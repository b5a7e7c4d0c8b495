package main

import (
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (p *Path) big(v Value) BigVal {
	q, ok := v.(*Value)
	if !ok || q == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	b, ok := (*q).(BigVal)
	if !ok {
		p.unsupported("big.Int cell")
	}
	return b
}

func (p *Path) bigConst(x *big.Int) BigVal {
	w := x.BitLen()
	if w == 0 {
		w = 1
	}
	return BigVal{p.c.Bool(x.Sign() < 0), p.c.ConstBig(w, new(big.Int).Abs(x))}
}

func (b BigVal) conc() (*big.Int, bool) {
	if b.Neg.isConst() && b.Mag.isConst() {
		x := new(big.Int).Set(b.Mag.Big())
		if b.Neg.isTrue() {
			x.Neg(x)
		}
		return x, true
	}
	return nil, false
}

func (p *Path) mkBig(neg, mag *Term) BigVal {
	// trim known-zero high bits
	n := mag.umax().BitLen()
	if n == 0 {
		n = 1
	}
	if n < mag.w {
		mag = p.c.Extract(mag, n-1, 0)
	}
	if !neg.isFalse() {
		neg = p.c.And(neg, p.c.Not(p.c.Eq(mag, p.c.Const0(mag.w))))
	}
	return BigVal{neg, mag}
}

func (p *Path) sameW(x, y *Term) (*Term, *Term) {
	w := max(x.w, y.w)
	return p.c.Zext(x, w), p.c.Zext(y, w)
}

func (p *Path) bigEq(a, b BigVal) *Term {
	x, y := p.sameW(a.Mag, b.Mag)
	return p.c.And(p.c.Eq(a.Neg, b.Neg), p.c.Eq(x, y))
}

func (p *Path) bigLess(a, b BigVal) *Term {
	x, y := p.sameW(a.Mag, b.Mag)
	if a.Neg.isFalse() && b.Neg.isFalse() {
		return p.c.Ult(x, y)
	}
	return p.c.Ite(a.Neg, p.c.Ite(b.Neg, p.c.Ult(y, x), p.c.T), p.c.Ite(b.Neg, p.c.F, p.c.Ult(x, y)))
}

func (p *Path) bigAdd(a, b BigVal) BigVal {
	w := max(a.Mag.w, b.Mag.w) + 1
	x, y := p.c.Zext(a.Mag, w), p.c.Zext(b.Mag, w)
	if a.Neg == b.Neg {
		return p.mkBig(a.Neg, p.c.Add(x, y))
	}
	same := p.c.Eq(a.Neg, b.Neg)
	ge := p.c.Ule(y, x)
	d := p.c.Ite(ge, p.c.Sub(x, y), p.c.Sub(y, x))
	return p.mkBig(p.c.Ite(same, a.Neg, p.c.Ite(ge, a.Neg, b.Neg)), p.c.Ite(same, p.c.Add(x, y), d))
}

func (p *Path) bigNeg(a BigVal) BigVal { return p.mkBig(p.c.Not(a.Neg), a.Mag) }

// byteLen forks over the minimal byte length of |x|.
func (p *Path) byteLen(mag *Term) int {
	hi := (mag.umax().BitLen() + 7) / 8
	lo := (mag.umin().BitLen() + 7) / 8
	for n := hi; n > lo; n-- {
		if p.branch(p.c.Not(p.c.Ult(mag, p.c.ConstBig(mag.w, new(big.Int).Lsh(big.NewInt(1), uint(8*(n-1))))))) {
			return n
		}
	}
	return lo
}

func (p *Path) bigBytes(b BigVal) []*Term {
	n := p.byteLen(b.Mag)
	r := make([]*Term, n)
	m := p.c.Zext(b.Mag, max(8*n, b.Mag.w))
	for i := 0; i < n; i++ {
		r[n-1-i] = p.c.Extract(m, 8*i+7, 8*i)
	}
	return r
}

func (p *Path) bigFromBytes(bs []*Term) BigVal {
	if len(bs) == 0 {
		return BigVal{p.c.F, p.c.Const(1, 0)}
	}
	return p.mkBig(p.c.F, p.catBytes(bs))
}

func (p *Path) bigStr(b BigVal) Value {
	if x, ok := b.conc(); ok {
		return x.String()
	}
	// an opaque number token (decimal rendering of the magnitude)
	t := p.c.Jnum(p.c.Zext(b.Mag, max(b.Mag.w, 256)), false)
	if b.Neg.isFalse() {
		return &SymStr{[]*Term{t}}
	}
	if p.branch(b.Neg) {
		return &SymStr{[]*Term{p.byteC('-'), t}}
	}
	return &SymStr{[]*Term{t}}
}

func (p *Path) bigParse(bs []*Term, base int) (BigVal, bool) {
	if len(bs) == 1 && bs[0].op == OJnum && (base == 10 || base == 0) {
		return p.tokBig(bs[0]), true
	}
	if len(bs) == 2 && bs[0].isConst() && bs[0].u == '-' && bs[1].op == OJnum {
		return p.bigNeg(p.tokBig(bs[1])), true
	}
	if cs, ok := concBytes(bs); ok {
		x, ok := new(big.Int).SetString(string(cs), base)
		if !ok {
			return BigVal{}, false
		}
		return p.bigConst(x), true
	}
	if base == 16 {
		var v []*Term
		for _, b := range bs {
			n, ok := p.hexNibble(b)
			if !ok {
				return BigVal{}, false
			}
			v = append(v, n)
		}
		return p.mkBig(p.c.F, p.c.Concat(v...)), true
	}
	p.unsupported("big.Int parse of symbolic digits")
	return BigVal{}, false
}

func (p *Path) tokBig(t *Term) BigVal {
	x := t.a[0]
	if t.s == "s" {
		neg := p.c.Slt(x, p.c.Const0(x.w))
		return p.mkBig(neg, p.c.Ite(neg, p.c.Neg(x), x))
	}
	return p.mkBig(p.c.F, x)
}

// hexNibble: the 4-bit value of a hexadecimal digit, forking on validity.
func (p *Path) hexNibble(b *Term) (*Term, bool) {
	c := p.c
	if b.op == OHexd {
		return b.a[0], true
	}
	if b.op == OJnum {
		p.unsupported("hex digit of a number token")
	}
	if b.isConst() {
		switch {
		case b.u >= '0' && b.u <= '9':
			return c.Const(4, b.u-'0'), true
		case b.u >= 'a' && b.u <= 'f':
			return c.Const(4, b.u-'a'+10), true
		case b.u >= 'A' && b.u <= 'F':
			return c.Const(4, b.u-'A'+10), true
		}
		return nil, false
	}
	in := func(lo, hi byte) *Term { return c.And(c.Ule(p.byteC(lo), b), c.Ule(b, p.byteC(hi))) }
	dig, low, up := in('0', '9'), in('a', 'f'), in('A', 'F')
	if !p.branch(c.Or(dig, c.Or(low, up))) {
		return nil, false
	}
	v := c.Ite(dig, c.Sub(b, p.byteC('0')), c.Ite(low, c.Sub(b, p.byteC('a'-10)), c.Sub(b, p.byteC('A'-10))))
	return c.Extract(v, 3, 0), true
}

func (p *Path) bigShl(b BigVal, n int) BigVal {
	return p.mkBig(b.Neg, p.c.Concat(b.Mag, p.c.Const0(max(n, 1)))).shl0(n, p, b)
}
func (r BigVal) shl0(n int, p *Path, b BigVal) BigVal {
	if n == 0 {
		return b
	}
	return r
}

func init() {
	B := "(*math/big.Int)."
	ret := func(a []Value, v BigVal) Value {
		*(a[0].(*Value)) = v
		return a[0]
	}
	reg("math/big.NewInt", func(p *Path, fn *ssa.Function, a []Value) Value {
		x := a[0].(*Term)
		neg := p.c.Slt(x, p.c.Const0(64))
		return cell(p.mkBig(neg, p.c.Ite(neg, p.c.Neg(x), x)))
	})
	reg(B+"SetInt64", func(p *Path, fn *ssa.Function, a []Value) Value {
		x := a[1].(*Term)
		p.big(a[0])
		neg := p.c.Slt(x, p.c.Const0(64))
		return ret(a, p.mkBig(neg, p.c.Ite(neg, p.c.Neg(x), x)))
	})
	reg(B+"SetUint64", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.big(a[0])
		return ret(a, p.mkBig(p.c.F, a[1].(*Term)))
	})
	reg(B+"SetBytes", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.big(a[0])
		return ret(a, p.bigFromBytes(p.bytesOf(a[1])))
	})
	reg(B+"Bytes", func(p *Path, fn *ssa.Function, a []Value) Value {
		// like nat.bytes: the backing array keeps room for whole words
		bs := p.bigBytes(p.big(a[0]))
		r := make([]Value, len(bs))
		for i, b := range bs {
			r[i] = b
		}
		return r
	})
	reg(B+"FillBytes", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := p.big(a[0])
		buf := a[1].([]Value)
		if b.Mag.umax().BitLen() > 8*len(buf) {
			if !p.branch(p.c.Ult(b.Mag, p.c.ConstBig(b.Mag.w, new(big.Int).Lsh(big.NewInt(1), uint(8*len(buf)))))) {
				p.goPanicStr("math/big: buffer too small to fit value")
			}
		}
		m := p.c.Zext(b.Mag, max(8*len(buf), b.Mag.w))
		for i := range buf {
			buf[len(buf)-1-i] = p.c.Extract(m, 8*i+7, 8*i)
		}
		return buf
	})
	reg(B+"Set", func(p *Path, fn *ssa.Function, a []Value) Value { p.big(a[0]); return ret(a, p.big(a[1])) })
	reg(B+"Cmp", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.big(a[0]), p.big(a[1])
		return p.c.Ite(p.bigEq(x, y), p.i64(0), p.c.Ite(p.bigLess(x, y), p.i64(-1), p.i64(1)))
	})
	reg(B+"CmpAbs", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.sameW(p.big(a[0]).Mag, p.big(a[1]).Mag)
		return p.c.Ite(p.c.Eq(x, y), p.i64(0), p.c.Ite(p.c.Ult(x, y), p.i64(-1), p.i64(1)))
	})
	reg(B+"Sign", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := p.big(a[0])
		return p.c.Ite(p.c.Eq(b.Mag, p.c.Const0(b.Mag.w)), p.i64(0), p.c.Ite(b.Neg, p.i64(-1), p.i64(1)))
	})
	reg(B+"Add", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.big(a[0])
		return ret(a, p.bigAdd(p.big(a[1]), p.big(a[2])))
	})
	reg(B+"Sub", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.big(a[0])
		return ret(a, p.bigAdd(p.big(a[1]), p.bigNeg(p.big(a[2]))))
	})
	reg(B+"Neg", func(p *Path, fn *ssa.Function, a []Value) Value { p.big(a[0]); return ret(a, p.bigNeg(p.big(a[1]))) })
	reg(B+"Abs", func(p *Path, fn *ssa.Function, a []Value) Value { return ret(a, BigVal{p.c.F, p.big(a[1]).Mag}) })
	reg(B+"Mul", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.big(a[1]), p.big(a[2])
		w := x.Mag.w + y.Mag.w
		return ret(a, p.mkBig(p.c.Not(p.c.Eq(x.Neg, y.Neg)), p.c.Mul(p.c.Zext(x.Mag, w), p.c.Zext(y.Mag, w))))
	})
	divmod := func(rem, eucl bool) intrinsic {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			x, y := p.big(a[1]), p.big(a[2])
			if p.branch(p.c.Eq(y.Mag, p.c.Const0(y.Mag.w))) {
				p.goPanicStr("division by zero")
			}
			if cx, ok := x.conc(); ok {
				if cy, ok := y.conc(); ok {
					r := new(big.Int)
					switch {
					case rem && eucl:
						r.Mod(cx, cy)
					case rem:
						r.Rem(cx, cy)
					case eucl:
						r.Div(cx, cy)
					default:
						r.Quo(cx, cy)
					}
					return ret(a, p.bigConst(r))
				}
			}
			if p.branch(p.c.Or(x.Neg, y.Neg)) {
				p.unsupported("symbolic division of a negative")
			}
			if x.Mag.umax().Cmp(y.Mag.umin()) < 0 {
				if rem {
					return ret(a, BigVal{p.c.F, x.Mag})
				}
				return ret(a, BigVal{p.c.F, p.c.Const(1, 0)})
			}
			m, n := p.sameW(x.Mag, y.Mag)
			op := OUdiv
			if rem {
				op = OUrem
			}
			return ret(a, p.mkBig(p.c.F, p.c.DivRem(op, m, n)))
		}
	}
	reg(B+"Mod", divmod(true, true))
	reg(B+"Rem", divmod(true, false))
	reg(B+"Div", divmod(false, true))
	reg(B+"Quo", divmod(false, false))
	bit := func(f func(p *Path, x, y *Term) *Term) intrinsic {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			x, y := p.big(a[1]), p.big(a[2])
			if !x.Neg.isFalse() || !y.Neg.isFalse() {
				p.unsupported("bit operation on negative big.Int")
			}
			m, n := p.sameW(x.Mag, y.Mag)
			return ret(a, p.mkBig(p.c.F, f(p, m, n)))
		}
	}
	reg(B+"And", bit(func(p *Path, x, y *Term) *Term { return p.c.BAnd(x, y) }))
	reg(B+"Or", bit(func(p *Path, x, y *Term) *Term { return p.c.BOr(x, y) }))
	reg(B+"Xor", bit(func(p *Path, x, y *Term) *Term { return p.c.BXor(x, y) }))
	reg(B+"Lsh", func(p *Path, fn *ssa.Function, a []Value) Value {
		return ret(a, p.bigShl(p.big(a[1]), int(p.concInt(a[2].(*Term)))))
	})
	reg(B+"Rsh", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := p.big(a[1])
		if !b.Neg.isFalse() {
			p.unsupported("Rsh of negative")
		}
		n := int(p.concInt(a[2].(*Term)))
		if n >= b.Mag.w {
			return ret(a, BigVal{p.c.F, p.c.Const(1, 0)})
		}
		return ret(a, p.mkBig(p.c.F, p.c.Extract(b.Mag, b.Mag.w-1, n)))
	})
	reg(B+"Bit", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := p.big(a[0])
		i := int(p.concInt(a[1].(*Term)))
		if i >= b.Mag.w {
			return p.c.Const(64, 0)
		}
		return p.c.Zext(p.c.Extract(b.Mag, i, i), 64)
	})
	reg(B+"BitLen", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := p.big(a[0])
		for n := b.Mag.umax().BitLen(); n > 0; n-- {
			if p.branch(p.c.Eq(p.c.Extract(b.Mag, n-1, n-1), p.c.Const(1, 1))) {
				return p.i64(n)
			}
		}
		return p.i64(0)
	})
	low64 := func(p *Path, m *Term) *Term {
		if m.w >= 64 {
			return p.c.Extract(m, 63, 0)
		}
		return p.c.Zext(m, 64)
	}
	reg(B+"Int64", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := p.big(a[0])
		v := low64(p, b.Mag)
		return p.c.Ite(b.Neg, p.c.Neg(v), v)
	})
	reg(B+"Uint64", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := p.big(a[0])
		v := low64(p, b.Mag)
		return v
	})
	reg(B+"IsInt64", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := p.big(a[0])
		if b.Mag.w < 64 {
			return p.c.T
		}
		lim := p.c.Zext(p.c.Const(64, 1<<63), b.Mag.w)
		return p.c.Ite(b.Neg, p.c.Ule(b.Mag, lim), p.c.Ult(b.Mag, lim))
	})
	reg(B+"IsUint64", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := p.big(a[0])
		if b.Mag.w <= 64 {
			return p.c.Not(b.Neg)
		}
		return p.c.And(p.c.Not(b.Neg), p.c.Eq(p.c.Extract(b.Mag, b.Mag.w-1, 64), p.c.Const0(b.Mag.w-64)))
	})
	reg(B+"String", func(p *Path, fn *ssa.Function, a []Value) Value {
		if q := a[0].(*Value); q == nil {
			return "<nil>"
		}
		return p.bigStr(p.big(a[0]))
	})
	reg(B+"Text", func(p *Path, fn *ssa.Function, a []Value) Value {
		base := int(p.concInt(a[1].(*Term)))
		b := p.big(a[0])
		if x, ok := b.conc(); ok {
			return x.Text(base)
		}
		if base == 10 {
			return p.bigStr(b)
		}
		if base == 16 && b.Neg.isFalse() {
			// fork over the number of digits
			return mkStr(p.hexMinimal(b.Mag))
		}
		p.unsupported("big.Int.Text")
		return nil
	})
	reg(B+"SetString", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.big(a[0])
		v, ok := p.bigParse(p.strBytes(a[1]), int(p.concInt(a[2].(*Term))))
		if !ok {
			return Tuple{(*Value)(nil), p.c.F}
		}
		*(a[0].(*Value)) = v
		return Tuple{a[0], p.c.T}
	})
	reg(B+"MarshalText", func(p *Path, fn *ssa.Function, a []Value) Value {
		if q := a[0].(*Value); q == nil {
			return Tuple{p.goBytes("<nil>"), Iface{}}
		}
		return Tuple{p.bytesToSlice(p.strBytes(p.bigStr(p.big(a[0])))), Iface{}}
	})
	reg(B+"MarshalJSON", func(p *Path, fn *ssa.Function, a []Value) Value {
		if q := a[0].(*Value); q == nil {
			return Tuple{p.goBytes("null"), Iface{}}
		}
		return Tuple{p.bytesToSlice(p.strBytes(p.bigStr(p.big(a[0])))), Iface{}}
	})
	unm := func(p *Path, fn *ssa.Function, a []Value) Value {
		p.big(a[0])
		bs := p.sliceTerms(a[1])
		if s, ok := concBytes(bs); ok && string(s) == "null" && fn.Name() == "UnmarshalJSON" {
			return Iface{}
		}
		v, ok := p.bigParse(bs, 0)
		if !ok {
			return p.errIface("math/big: cannot unmarshal into a *big.Int")
		}
		*(a[0].(*Value)) = v
		return Iface{}
	}
	reg(B+"UnmarshalText", unm)
	reg(B+"UnmarshalJSON", unm)
	reg(B+"Exp", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, ok1 := p.big(a[1]).conc()
		y, ok2 := p.big(a[2]).conc()
		var m *big.Int
		ok3 := true
		if q := a[3].(*Value); q != nil {
			m, ok3 = p.big(a[3]).conc()
		}
		if !ok1 || !ok2 || !ok3 {
			p.unsupported("symbolic big.Int.Exp")
		}
		return ret(a, p.bigConst(new(big.Int).Exp(x, y, m)))
	})
}

func (p *Path) hexMinimal(m *Term) []*Term {
	hi := (m.umax().BitLen() + 3) / 4
	lo := max((m.umin().BitLen()+3)/4, 1)
	n := lo
	for k := hi; k > lo; k-- {
		if p.branch(p.c.Not(p.c.Ult(m, p.c.ConstBig(m.w, new(big.Int).Lsh(big.NewInt(1), uint(4*(k-1))))))) {
			n = k
			break
		}
	}
	z := p.c.Zext(m, max(4*n, m.w))
	r := make([]*Term, n)
	for i := 0; i < n; i++ {
		r[n-1-i] = p.c.Hexd(p.c.Extract(z, 4*i+3, 4*i))
	}
	return r
}
