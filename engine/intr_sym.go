package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const symPath = "github.com/iden3/go-iden3-core/verifharness/sym"

func init() {
	S := symPath + "."
	for _, k := range []struct {
		n string
		w int
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I64", 64}, {"Int", 64}} {
		w := k.w
		reg(S+k.n, func(p *Path, fn *ssa.Function, a []Value) Value { return p.input(p.str(a[0]), "int", w) })
	}
	reg(S+"Bool", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.c.Eq(p.input(p.str(a[0]), "bool", 1), p.c.Const(1, 1))
	})
	reg(S+"Range", func(p *Path, fn *ssa.Function, a []Value) Value {
		lo, hi := a[1].(*Term), a[2].(*Term)
		if lo.isConst() && hi.isConst() && lo.S64() >= 0 {
			return p.inputBelow(p.str(a[0]), "int", 64, lo.Big(), hi.Big())
		}
		t := p.input(p.str(a[0]), "int", 64)
		p.assume(p.c.And(p.c.Sle(lo, t), p.c.Sle(t, hi)))
		return t
	})
	reg(S+"Choose", func(p *Path, fn *ssa.Function, a []Value) Value {
		n := p.inName(p.str(a[0]))
		v := p.choose(int(p.concInt(a[1].(*Term))))
		p.inputs = append(p.inputs, symInput{name: n, val: int64(v), kind: "choice"})
		return p.i64(v)
	})
	reg(S+"Bytes", func(p *Path, fn *ssa.Function, a []Value) Value {
		n := int(p.concInt(a[1].(*Term)))
		if n == 0 {
			return []Value{}
		}
		t := p.input(p.str(a[0]), "bytes", 8*n)
		r := make([]Value, n)
		for i := range r {
			r[i] = p.c.Extract(t, 8*(n-i)-1, 8*(n-i-1))
		}
		return r
	})
	// LEBytes32: 32 bytes whose little-endian value is the input, below the field modulus
	reg(S+"Elem", func(p *Path, fn *ssa.Function, a []Value) Value {
		t := p.c.Zext(p.inputBelow(p.str(a[0]), "elem", 254, new(big.Int), new(big.Int).Sub(fieldQ, one)), 256)
		r := make(Array, 32)
		for i := range r {
			r[i] = p.c.Extract(t, 8*i+7, 8*i)
		}
		return r
	})
	reg(S+"Big", func(p *Path, fn *ssa.Function, a []Value) Value {
		bits := int(p.concInt(a[1].(*Term)))
		return cell(BigVal{p.c.F, p.input(p.str(a[0]), "big", bits)})
	})
	reg(S+"Field", func(p *Path, fn *ssa.Function, a []Value) Value {
		t := p.inputBelow(p.str(a[0]), "big", 254, new(big.Int), new(big.Int).Sub(fieldQ, one))
		return cell(BigVal{p.c.F, t})
	})
	reg(S+"Str", func(p *Path, fn *ssa.Function, a []Value) Value {
		// printable ASCII string without JSON escapes, of length n
		n := int(p.concInt(a[1].(*Term)))
		if n == 0 {
			return ""
		}
		t := p.input(p.str(a[0]), "bytes", 8*n)
		var bs []*Term
		for i := 0; i < n; i++ {
			b := p.c.Extract(t, 8*(n-i)-1, 8*(n-i-1))
			p.assume(p.c.AndN([]*Term{p.c.Ule(p.byteC(0x23), b), p.c.Ule(b, p.byteC(0x7a)), p.c.Not(p.c.Eq(b, p.byteC('\\'))),
				p.c.Not(p.c.Eq(b, p.byteC('<'))), p.c.Not(p.c.Eq(b, p.byteC('>'))), p.c.Not(p.c.Eq(b, p.byteC('&')))}))
			bs = append(bs, b)
		}
		return mkStr(bs)
	})
	reg(S+"Assume", func(p *Path, fn *ssa.Function, a []Value) Value { p.assume(a[0].(*Term)); return nil })
	reg(S+"Assert", func(p *Path, fn *ssa.Function, a []Value) Value { p.assert(a[0].(*Term), p.str(a[1])); return nil })
	reg(S+"AssumeFree", func(p *Path, fn *ssa.Function, a []Value) Value { p.assumeFree(a[0].(*Term)); return nil })
	reg(S+"Reach", func(p *Path, fn *ssa.Function, a []Value) Value { p.reach[p.str(a[0])] = true; return nil })
	reg(S+"Now", func(p *Path, fn *ssa.Function, a []Value) Value { return p.now() })
	reg(S+"SetNow", func(p *Path, fn *ssa.Function, a []Value) Value { p.nowT = a[0].(*Term); return nil })
	reg(S+"Yield", func(p *Path, fn *ssa.Function, a []Value) Value { p.maybeYield("sym"); return nil })
	reg(S+"Go", func(p *Path, fn *ssa.Function, a []Value) Value {
		m := p.symWG()
		m.n++
		f := a[0]
		p.spawn(&NativeFn{"sym.Go", func(p *Path, _ []Value) Value {
			p.call(nil, f, nil)
			p.release(m, true)
			m.n--
			return nil
		}}, nil)
		return nil
	})
	reg(S+"Wait", func(p *Path, fn *ssa.Function, a []Value) Value {
		m := p.symWG()
		p.blockUntil(func() bool { return m.n == 0 }, "sym.Wait")
		p.acquire(m, true)
		return nil
	})
	reg(S+"Param", func(p *Path, fn *ssa.Function, a []Value) Value {
		if v, ok := p.eng.params[p.str(a[0])]; ok {
			return p.i64(v)
		}
		return a[1]
	})
	reg(S+"Scratch", func(p *Path, fn *ssa.Function, a []Value) Value { return "/scratch/" + p.str(a[0]) })
	reg(S+"Thorough", func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.Bool(p.eng.tier == "thorough") })
	reg(S+"Symbolic", func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.T })
	reg(S+"MapReverse", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.mapRev = a[0].(*Term).isTrue()
		return nil
	})
	reg(S+"Catch", func(p *Path, fn *ssa.Function, a []Value) Value { return p.catch(a[0]) })
	reg(S+"IteU64", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	reg(S+"And", func(p *Path, fn *ssa.Function, a []Value) Value {
		var cs []*Term
		for _, x := range varargs(a[0]) {
			cs = append(cs, x.(*Term))
		}
		return p.c.AndN(cs)
	})
	reg(S+"Or", func(p *Path, fn *ssa.Function, a []Value) Value {
		r := p.c.F
		for _, x := range varargs(a[0]) {
			r = p.c.Or(r, x.(*Term))
		}
		return r
	})
	reg(S+"EqBytes", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.eqBytes(p.bytesOf(a[0]), p.bytesOf(a[1]))
	})
	reg(S+"Debug", func(p *Path, fn *ssa.Function, a []Value) Value {
		if trace {
			fmt.Println("DEBUG", a[0], a[1])
		}
		return nil
	})
}

func (p *Path) symWG() *muState {
	m, _ := p.side["symwg"].(*muState)
	if m == nil {
		m = &muState{}
		p.side["symwg"] = m
	}
	return m
}

// catch runs f and reports whether it panicked (a Go panic of the code under
// test, not engine control flow).
func (p *Path) catch(f Value) (res Value) {
	sc, sd := p.cur, p.depth
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(targetPanic); !ok {
			panic(r)
		}
		p.cur, p.depth = sc, sd
		res = p.c.T
	}()
	p.call(p.cur, f, nil)
	return p.c.F
}
