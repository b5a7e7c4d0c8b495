package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (p *Path) hexBytes(bs []*Term) []*Term {
	var r []*Term
	for _, b := range bs {
		r = append(r, p.c.Hexd(p.c.Extract(b, 7, 4)), p.c.Hexd(p.c.Extract(b, 3, 0)))
	}
	return r
}

func (p *Path) intText(t *Term, signed bool) []*Term {
	if t.isConst() {
		if signed {
			return p.strBytes(strconv.FormatInt(t.S64(), 10))
		}
		return p.strBytes(strconv.FormatUint(t.u, 10))
	}
	return []*Term{p.c.Jnum(t, signed)}
}

// format renders one operand under a verb.
func (p *Path) format(verb byte, plus, sharp, zeroPad bool, width int, v Iface, depth int) []*Term {
	if v.T == nil {
		if verb == 'v' || verb == 's' {
			return p.strBytes("<nil>")
		}
		return p.strBytes("%!" + string(verb) + "(<nil>)")
	}
	if depth < 6 && (verb == 'v' || verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') && !sharp {
		if q, ok := v.V.(*Value); !ok || q != nil {
			if p.implements(v.T, p.eng.errorT.Underlying().(*types.Interface)) {
				if m := p.methodByName(v.T, "Error"); m != nil {
					s := p.callFn(p.cur, m, []Value{v.V}, nil)
					return p.format(verb, plus, sharp, zeroPad, width, Iface{types.Typ[types.String], s}, depth+1)
				}
			}
			if m := p.methodByName(v.T, "String"); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 && isString(m.Signature.Results().At(0).Type()) {
				if !(isBigPtr(v.T) && (verb == 'x' || verb == 'X')) {
					s := p.callFn(p.cur, m, []Value{v.V}, nil)
					return p.format(verb, plus, sharp, zeroPad, width, Iface{types.Typ[types.String], s}, depth+1)
				}
			}
		}
	}
	switch x := v.V.(type) {
	case *Term:
		if x.w == 0 {
			if p.branch(x) {
				return p.strBytes("true")
			}
			return p.strBytes("false")
		}
		_, s, _ := intInfo(v.T)
		switch verb {
		case 'x':
			if x.isConst() {
				return p.pad(p.strBytes(strconv.FormatUint(x.u, 16)), zeroPad, width)
			}
			if zeroPad && x.w <= 4*width {
				z := p.c.Zext(x, 4*width)
				var r []*Term
				for i := width - 1; i >= 0; i-- {
					r = append(r, p.c.Hexd(p.c.Extract(z, 4*i+3, 4*i)))
				}
				return r
			}
			return p.pad(p.hexMinimal(x), zeroPad, width)
		case 'c':
			return p.strBytes(string(rune(p.concInt(x))))
		case 'q', 'U', 'b', 'o', 'X':
			return p.strBytes(fmt.Sprintf("%"+string(verb), p.concInt(x)))
		}
		t := p.intText(x, s)
		if zeroPad && width > 0 && !x.isConst() {
			p.unsupported("padded symbolic integer")
		}
		return p.pad(t, zeroPad, width)
	case string, *SymStr:
		bs := p.strBytes(x)
		switch verb {
		case 'x':
			return p.hexBytes(bs)
		case 'q':
			return append(append([]*Term{p.byteC('"')}, bs...), p.byteC('"'))
		}
		return p.pad(bs, zeroPad, width)
	case []Value:
		if et, ok := v.T.Underlying().(*types.Slice); ok {
			return p.fmtList(verb, et.Elem(), x, depth)
		}
	case Array:
		return p.fmtList(verb, v.T.Underlying().(*types.Array).Elem(), []Value(x), depth)
	case *Value:
		if x == nil {
			return p.strBytes("<nil>")
		}
		if _, ok := (*x).(BigVal); ok {
			if verb == 'x' {
				return p.hexMinimal((*x).(BigVal).Mag)
			}
			return p.strBytes(p.bigStr((*x).(BigVal)))
		}
		if depth == 0 {
			if _, ok := (*x).(Struct); ok {
				return append([]*Term{p.byteC('&')}, p.format(verb, plus, sharp, zeroPad, 0, Iface{deref(v.T), *x}, depth+1)...)
			}
		}
		return p.strBytes("0xc000000000")
	case Struct:
		r := []*Term{p.byteC('{')}
		st := v.T.Underlying().(*types.Struct)
		for i := range x {
			if i > 0 {
				r = append(r, p.byteC(' '))
			}
			if plus {
				r = append(r, p.strBytes(st.Field(i).Name()+":")...)
			}
			r = append(r, p.format(verb, plus, sharp, zeroPad, 0, p.asIface(st.Field(i).Type(), x[i]), depth+1)...)
		}
		return append(r, p.byteC('}'))
	case float64:
		return p.strBytes(fmt.Sprint(x))
	case *MapV:
		return p.strBytes("map[...]")
	}
	return p.strBytes("?")
}

func isBigPtr(t types.Type) bool { return isBigInt(deref(t)) }

func (p *Path) asIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t, v}
}

func (p *Path) fmtList(verb byte, et types.Type, xs []Value, depth int) []*Term {
	if w, _, ok := intInfo(et); ok && w == 8 && (verb == 'x' || verb == 's') {
		ts := p.sliceTerms(xs)
		if verb == 'x' {
			return p.hexBytes(ts)
		}
		return ts
	}
	r := []*Term{p.byteC('[')}
	for i, x := range xs {
		if i > 0 {
			r = append(r, p.byteC(' '))
		}
		r = append(r, p.format(verb, false, false, false, 0, p.asIface(et, x), depth+1)...)
	}
	return append(r, p.byteC(']'))
}

func (p *Path) pad(bs []*Term, zero bool, width int) []*Term {
	for len(bs) < width {
		ch := byte(' ')
		if zero {
			ch = '0'
		}
		bs = append([]*Term{p.byteC(ch)}, bs...)
	}
	return bs
}

func (p *Path) sprintf(f string, args []Value) ([]*Term, Iface) {
	var r []*Term
	var wrapped Iface
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = append(r, p.byteC(f[i]))
			continue
		}
		i++
		plus, sharp, zp, width := false, false, false, 0
		for ; i < len(f); i++ {
			if f[i] == '+' {
				plus = true
			} else if f[i] == '#' {
				sharp = true
			} else if f[i] == '0' && width == 0 {
				zp = true
			} else if f[i] >= '0' && f[i] <= '9' {
				width = width*10 + int(f[i]-'0')
			} else if f[i] == '-' || f[i] == ' ' || f[i] == '.' {
			} else {
				break
			}
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			r = append(r, p.byteC('%'))
			continue
		}
		if n >= len(args) {
			r = append(r, p.strBytes("%!"+string(f[i])+"(MISSING)")...)
			continue
		}
		v := args[n].(Iface)
		n++
		vb := f[i]
		if vb == 'w' {
			wrapped = v
			vb = 'v'
		}
		if vb == 'T' {
			s := "<nil>"
			if v.T != nil {
				s = types.TypeString(v.T, func(q *types.Package) string { return q.Name() })
			}
			r = append(r, p.strBytes(s)...)
			continue
		}
		r = append(r, p.format(vb, plus, sharp, zp, width, v, 0)...)
	}
	return r, wrapped
}

func varargs(v Value) []Value { s, _ := v.([]Value); return s }

func init() {
	reg("fmt.Sprintf", func(p *Path, fn *ssa.Function, a []Value) Value {
		r, _ := p.sprintf(p.str(a[0]), varargs(a[1]))
		return mkStr(r)
	})
	sprint := func(sp, nl bool) intrinsic {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			var r []*Term
			for i, x := range varargs(a[0]) {
				if i > 0 && sp {
					r = append(r, p.byteC(' '))
				}
				r = append(r, p.format('v', false, false, false, 0, x.(Iface), 0)...)
			}
			if nl {
				r = append(r, p.byteC('\n'))
			}
			return mkStr(r)
		}
	}
	// written in one call, as the real ones do; what goes to a file is left out
	fprint := func(text func(p *Path, a []Value) Value) intrinsic {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			w := a[0].(Iface)
			if w.T == nil || w.T.String() == "*os.File" {
				return p.zeroResults(fn)
			}
			m := p.findMeth(w.T, "Write")
			if m == nil {
				return p.zeroResults(fn)
			}
			return p.callFn(p.cur, m, []Value{w.V, p.bytesToSlice(p.strBytes(text(p, a)))}, nil)
		}
	}
	reg("fmt.Fprintf", fprint(func(p *Path, a []Value) Value {
		r, _ := p.sprintf(p.str(a[1]), varargs(a[2]))
		return mkStr(r)
	}))
	reg("fmt.Fprintln", fprint(func(p *Path, a []Value) Value { return sprint(true, true)(p, nil, a[1:]) }))
	reg("fmt.Fprint", fprint(func(p *Path, a []Value) Value { return sprint(false, false)(p, nil, a[1:]) }))
	reg("fmt.Sprint", sprint(false, false))
	reg("fmt.Sprintln", sprint(true, true))
	reg("fmt.Errorf", func(p *Path, fn *ssa.Function, a []Value) Value {
		// error texts never influence the behaviour under test: they are
		// rendered lazily only when concrete
		f := p.str(a[0])
		var wrapped Iface
		args := varargs(a[1])
		n := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] == '%' {
				i++
				for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '0' || (f[i] >= '0' && f[i] <= '9')) {
					i++
				}
				if i < len(f) && f[i] == '%' {
					continue
				}
				if i < len(f) && f[i] == 'w' && n < len(args) {
					wrapped = args[n].(Iface)
				}
				n++
			}
		}
		var msg Value = f
		if wrapped.T != nil {
			wt := p.eng.pkgs["fmt"].Pkg.Scope().Lookup("wrapError").Type()
			return Iface{types.NewPointer(wt), cell(Struct{msg, wrapped})}
		}
		return Iface{p.eng.errStrT, cell(Struct{msg})}
	})
	reg("strconv.Itoa", func(p *Path, fn *ssa.Function, a []Value) Value { return mkStr(p.intText(a[0].(*Term), true)) })
	reg("strconv.FormatInt", func(p *Path, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return strconv.FormatInt(t.S64(), int(p.concInt(a[1].(*Term))))
		}
		return mkStr(p.intText(t, true))
	})
	reg("strconv.FormatUint", func(p *Path, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return strconv.FormatUint(t.u, int(p.concInt(a[1].(*Term))))
		}
		return mkStr(p.intText(t, false))
	})
	reg("strconv.Quote", func(p *Path, fn *ssa.Function, a []Value) Value { return strconv.Quote(p.str(a[0])) })
	// hex
	reg("encoding/hex.EncodeToString", func(p *Path, fn *ssa.Function, a []Value) Value { return mkStr(p.hexBytes(p.sliceTerms(a[0]))) })
	reg("encoding/hex.Encode", func(p *Path, fn *ssa.Function, a []Value) Value {
		d := a[0].([]Value)
		h := p.hexBytes(p.sliceTerms(a[1]))
		if len(d) < len(h) {
			p.goPanicStr("runtime error: index out of range (hex.Encode)")
		}
		for i, t := range h {
			d[i] = t
		}
		return p.i64(len(h))
	})
	dec := func(p *Path, bs []*Term) ([]*Term, Value) {
		var r []*Term
		for i := 0; i+1 < len(bs); i += 2 {
			h, ok := p.hexNibble(bs[i])
			if !ok {
				return r, p.errIface("encoding/hex: invalid byte")
			}
			l, ok := p.hexNibble(bs[i+1])
			if !ok {
				return r, p.errIface("encoding/hex: invalid byte")
			}
			r = append(r, p.c.Concat(h, l))
		}
		if len(bs)%2 == 1 {
			return r, *p.global(p.eng.pkgs["encoding/hex"].Var("ErrLength"))
		}
		return r, Iface{}
	}
	reg("encoding/hex.DecodeString", func(p *Path, fn *ssa.Function, a []Value) Value {
		r, e := dec(p, p.strBytes(a[0]))
		return Tuple{p.bytesToSlice(r), e}
	})
	reg("encoding/hex.Decode", func(p *Path, fn *ssa.Function, a []Value) Value {
		r, e := dec(p, p.sliceTerms(a[1]))
		d := a[0].([]Value)
		if len(r) > len(d) {
			p.goPanicStr("runtime error: index out of range (hex.Decode)")
		}
		for i, t := range r {
			d[i] = t
		}
		return Tuple{p.i64(len(r)), e}
	})
	// base64 (standard alphabet, padded)
	reg("(*encoding/base64.Encoding).EncodeToString", func(p *Path, fn *ssa.Function, a []Value) Value {
		t := p.b64enc(p.sliceTerms(a[1]))
		for !p.b64padded(a[0]) && len(t) > 0 && t[len(t)-1].isConst() && t[len(t)-1].u == '=' {
			t = t[:len(t)-1]
		}
		return mkStr(t)
	})
	reg("(*encoding/base64.Encoding).DecodeString", func(p *Path, fn *ssa.Function, a []Value) Value {
		r, ok := p.b64dec(p.strBytes(a[1]), p.b64padded(a[0]))
		if !ok {
			return Tuple{p.bytesToSlice(r), p.errIface("illegal base64 data")}
		}
		return Tuple{p.bytesToSlice(r), Iface{}}
	})
}

// symbolic base64 digits are opaque UF applications over six bits, inverted
// structurally; comparisons against concrete text see an ordinary byte.
const b64a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func (p *Path) b64d(x *Term) *Term {
	if x.isConst() {
		return p.byteC(b64a[x.u])
	}
	return p.c.UF("b64d", 8, x)
}

func (p *Path) b64enc(bs []*Term) []*Term {
	var r []*Term
	c := p.c
	for i := 0; i < len(bs); i += 3 {
		n := min(3, len(bs)-i)
		g := []*Term{bs[i], p.byteC(0), p.byteC(0)}
		for k := 1; k < n; k++ {
			g[k] = bs[i+k]
		}
		v := c.Concat(g...)
		for k := 0; k <= n; k++ {
			r = append(r, p.b64d(c.Extract(v, 23-6*k, 18-6*k)))
		}
		for k := n + 1; k < 4; k++ {
			r = append(r, p.byteC('='))
		}
	}
	return r
}

// b64padded reads the padding character of an encoding with the standard
// alphabet (encode [64]byte, decodeMap, padChar, strict).
func (p *Path) b64padded(v Value) bool {
	e := (*(v.(*Value))).(Struct)
	enc := e[0].(Array)
	for i := range b64a {
		if t := enc[i].(*Term); !t.isConst() || byte(t.u) != b64a[i] {
			p.unsupported("base64 alphabet")
		}
	}
	if !e[3].(*Term).isFalse() {
		p.unsupported("strict base64")
	}
	pad := e[2].(*Term)
	if pad.u == '=' {
		return true
	}
	if int32(pad.u) != -1 {
		p.unsupported("base64 padding character")
	}
	return false
}

// b64val: the six bits of a character, forking on its class.
// class: 0 digit, 1 newline, 2 '=', 3 anything else.
func (p *Path) b64val(b *Term) (*Term, int) {
	c := p.c
	if b.op == OUF && b.s == "b64d" {
		return b.a[0], 0
	}
	if b.isConst() {
		if j := strings.IndexByte(b64a, byte(b.u)); j >= 0 {
			return c.Const(6, uint64(j)), 0
		}
		switch b.u {
		case '\n', '\r':
			return nil, 1
		case '=':
			return nil, 2
		}
		return nil, 3
	}
	if b.op == OHexd || b.op == OJnum {
		p.unsupported("base64 decoding of a token")
	}
	in := func(lo, hi byte) *Term { return c.And(c.Ule(p.byteC(lo), b), c.Ule(b, p.byteC(hi))) }
	is := func(x byte) *Term { return c.Eq(b, p.byteC(x)) }
	up, low, dig := in('A', 'Z'), in('a', 'z'), in('0', '9')
	if p.branch(c.Or(c.Or(up, low), c.Or(dig, c.Or(is('+'), is('/'))))) {
		v := c.Ite(up, c.Sub(b, p.byteC('A')), c.Ite(low, c.Sub(b, p.byteC('a'-26)), c.Ite(dig, c.Add(b, p.byteC(4)), c.Ite(is('+'), p.byteC(62), p.byteC(63)))))
		return c.Extract(v, 5, 0), 0
	}
	if p.branch(c.Or(is('\n'), is('\r'))) {
		return nil, 1
	}
	if p.branch(is('=')) {
		return nil, 2
	}
	return nil, 3
}

// b64dec decodes as encoding/base64 does (non-strict), padded or raw.
func (p *Path) b64dec(bs []*Term, padded bool) ([]*Term, bool) {
	var r []*Term
	i := 0
	next := func() (*Term, int) { // skips newlines; class 4 at the end
		for i < len(bs) {
			v, k := p.b64val(bs[i])
			i++
			if k != 1 {
				return v, k
			}
		}
		return nil, 4
	}
	emit := func(d []*Term) {
		n := len(d) - 1
		for len(d) < 4 {
			d = append(d, p.c.Const(6, 0))
		}
		v := p.c.Concat(d...)
		for k := 0; k < n; k++ {
			r = append(r, p.c.Extract(v, 23-8*k, 16-8*k))
		}
	}
	for {
		var d []*Term
		for len(d) < 4 {
			v, k := next()
			if k == 0 {
				d = append(d, v)
				continue
			}
			if k == 4 {
				if len(d) == 0 {
					return r, true
				}
				if len(d) == 1 || padded {
					return r, false
				}
				emit(d)
				return r, true
			}
			if k == 3 || !padded || len(d) < 2 {
				return r, false
			}
			if len(d) == 2 {
				if _, k := next(); k != 2 {
					return r, false
				}
			}
			if _, k := next(); k != 4 {
				return r, false
			}
			emit(d)
			return r, true
		}
		emit(d)
	}
}
