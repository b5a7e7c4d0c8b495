package main

// encoding/json for concrete shapes and symbolic contents: strings, byte
// strings, integers and booleans may be symbolic, structure may not.

import (
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type jfield struct {
	name     string
	idx      []int
	t        types.Type
	omit     bool
	quoted   bool
	embedPtr bool
}

func (p *Path) jfields(st *types.Struct) []jfield {
	var out []jfield
	seen := map[string]bool{}
	var walk func(st *types.Struct, pre []int, depth int)
	var later []func()
	walk = func(st *types.Struct, pre []int, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			idx := append(append([]int(nil), pre...), i)
			if f.Embedded() && parts[0] == "" {
				if es, ok := deref(f.Type()).Underlying().(*types.Struct); ok {
					if _, isP := f.Type().Underlying().(*types.Pointer); !isP {
						later = append(later, func() { walk(es, idx, depth+1) })
						continue
					}
					p.unsupported("json embedded pointer")
				}
			}
			if !f.Exported() {
				continue
			}
			n := parts[0]
			if n == "" {
				n = f.Name()
			}
			if seen[n] {
				continue
			}
			seen[n] = true
			jf := jfield{name: n, idx: idx, t: f.Type()}
			for _, o := range parts[1:] {
				if o == "omitempty" {
					jf.omit = true
				}
				if o == "string" {
					jf.quoted = true
				}
			}
			out = append(out, jf)
		}
	}
	walk(st, nil, 0)
	for len(later) > 0 {
		l := later
		later = nil
		for _, f := range l {
			f()
		}
	}
	return out
}

type jerr struct{ v Value }

func (p *Path) jfail(msg string) { panic(jerr{p.errIface("json: " + msg)}) }

func (p *Path) findMeth(t types.Type, name string) *ssa.Function {
	return p.methodByName(t, name)
}

// jenc appends the encoding of v (of type t) to out.  addr is the address of
// the value when it is addressable.
func (p *Path) jenc(out []*Term, t types.Type, v Value, addr *Value) []*Term {
	if al, ok := t.(*types.Alias); ok {
		t = types.Unalias(al)
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		i := v.(Iface)
		if i.T == nil {
			return append(out, p.strBytes("null")...)
		}
		return p.jenc(out, i.T, i.V, nil)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		q, isq := v.(*Value)
		if isq && q == nil {
			return append(out, p.strBytes("null")...)
		}
		_ = pt
	}
	try := func(t types.Type, v Value) ([]*Term, bool) {
		if m := p.findMeth(t, "MarshalJSON"); m != nil {
			r := p.callFn(p.cur, m, []Value{v}, nil).(Tuple)
			if e := r[1].(Iface); e.T != nil {
				panic(jerr{e})
			}
			return append(out, p.sliceTerms(r[0])...), true
		}
		if m := p.findMeth(t, "MarshalText"); m != nil {
			r := p.callFn(p.cur, m, []Value{v}, nil).(Tuple)
			if e := r[1].(Iface); e.T != nil {
				panic(jerr{e})
			}
			return p.jstr(out, p.sliceTerms(r[0])), true
		}
		return nil, false
	}
	if r, ok := try(t, v); ok {
		return r
	}
	if addr != nil {
		if _, isP := t.Underlying().(*types.Pointer); !isP {
			if r, ok := try(types.NewPointer(t), addr); ok {
				return r
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, s, ok := intInfo(u); ok {
			return append(out, p.intText(v.(*Term), s)...)
		}
		if isBool(u) {
			if p.branch(v.(*Term)) {
				return append(out, p.strBytes("true")...)
			}
			return append(out, p.strBytes("false")...)
		}
		if isString(u) {
			return p.jstr(out, p.strBytes(v))
		}
		if f, ok := v.(float64); ok {
			return append(out, p.strBytes(strconv.FormatFloat(f, 'f', -1, 64))...)
		}
	case *types.Pointer:
		q := v.(*Value)
		return p.jenc(out, u.Elem(), *q, q)
	case *types.Struct:
		s := v.(Struct)
		out = append(out, p.byteC('{'))
		first := true
		for _, f := range p.jfields(u) {
			cur := Value(s)
			var ca *Value
			for _, i := range f.idx {
				ca = &cur.(Struct)[i]
				cur = *ca
			}
			if f.omit && p.jempty(f.t, cur) {
				continue
			}
			if !first {
				out = append(out, p.byteC(','))
			}
			first = false
			out = p.jstr(out, p.strBytes(f.name))
			out = append(out, p.byteC(':'))
			if addr == nil {
				ca = nil
			}
			if f.quoted {
				out = append(out, p.byteC('"'))
			}
			out = p.jenc(out, f.t, cur, ca)
			if f.quoted {
				out = append(out, p.byteC('"'))
			}
		}
		return append(out, p.byteC('}'))
	case *types.Slice:
		xs := v.([]Value)
		if xs == nil {
			return append(out, p.strBytes("null")...)
		}
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 && p.findMeth(types.NewPointer(u.Elem()), "MarshalJSON") == nil {
			out = append(out, p.byteC('"'))
			out = append(out, p.b64enc(p.sliceTerms(xs))...)
			return append(out, p.byteC('"'))
		}
		out = append(out, p.byteC('['))
		for i := range xs {
			if i > 0 {
				out = append(out, p.byteC(','))
			}
			out = p.jenc(out, u.Elem(), xs[i], &xs[i])
		}
		return append(out, p.byteC(']'))
	case *types.Array:
		xs := v.(Array)
		out = append(out, p.byteC('['))
		for i := range xs {
			if i > 0 {
				out = append(out, p.byteC(','))
			}
			var ea *Value
			if addr != nil {
				ea = &xs[i]
			}
			out = p.jenc(out, u.Elem(), xs[i], ea)
		}
		return append(out, p.byteC(']'))
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return append(out, p.strBytes("null")...)
		}
		type kv struct {
			k string
			b []*Term
			v Value
		}
		var kvs []kv
		conc := true
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			x := kv{v: e.v}
			if isString(u.Key()) {
				x.b = p.strBytes(e.k)
			} else if mt := p.findMeth(u.Key(), "MarshalText"); mt != nil {
				r := p.callFn(p.cur, mt, []Value{copyVal(e.k)}, nil).(Tuple)
				if e := r[1].(Iface); e.T != nil {
					panic(jerr{e})
				}
				x.b = p.sliceTerms(r[0])
			} else {
				p.unsupported("json map key " + u.Key().String())
			}
			b, ok := concBytes(x.b)
			x.k, conc = string(b), conc && ok
			kvs = append(kvs, x)
		}
		if !conc && len(kvs) > 1 {
			p.unsupported("order of symbolic json map keys")
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		out = append(out, p.byteC('{'))
		for i, e := range kvs {
			if i > 0 {
				out = append(out, p.byteC(','))
			}
			out = p.jstr(out, e.b)
			out = append(out, p.byteC(':'))
			out = p.jenc(out, u.Elem(), e.v, nil)
		}
		return append(out, p.byteC('}'))
	}
	p.unsupported("json encoding of " + t.String())
	return nil
}

func (p *Path) jempty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case *Term:
		return p.branch(p.c.Eq(x, p.zeroLike(x).(*Term)))
	case string, *SymStr:
		return strLen(x) == 0
	case *Value:
		return x == nil
	case []Value:
		return len(x) == 0
	case Array:
		return len(x) == 0
	case *MapV:
		return x == nil || x.n == 0
	case Iface:
		return x.T == nil
	}
	return false
}

// plain: a byte that needs no escaping inside a JSON string.
func (p *Path) plain(b *Term) bool {
	if b.isConst() {
		return b.u >= 0x20 && b.u < 0x80 && b.u != '"' && b.u != '\\' && b.u != '<' && b.u != '>' && b.u != '&'
	}
	if b.op == OHexd || b.op == OJnum || b.op == OUF && b.s == "b64d" || b.op == OExtract && b.a[0].op == OUF && ufFamily(b.a[0].s) == "b58" {
		return true
	}
	c := p.c
	ne := func(ch byte) *Term { return c.Not(c.Eq(b, p.byteC(ch))) }
	return p.branch(c.AndN([]*Term{c.Ule(p.byteC(0x20), b), c.Ult(b, p.byteC(0x80)), ne('"'), ne('\\'), ne('<'), ne('>'), ne('&')}))
}

// jesc escapes a symbolic ASCII character that needs it.
func (p *Path) jesc(b *Term) []*Term {
	c := p.c
	for _, k := range []struct {
		ch byte
		s  string
	}{{'"', "\\\""}, {'\\', "\\\\"}, {'\n', "\\n"}, {'\r', "\\r"}, {'\t', "\\t"}, {'\b', "\\b"}, {'\f', "\\f"}, {'<', "\\u003c"}, {'>', "\\u003e"}, {'&', "\\u0026"}} {
		if p.branch(c.Eq(b, p.byteC(k.ch))) {
			return p.strBytes(k.s)
		}
	}
	if !p.branch(c.Ult(b, p.byteC(0x80))) {
		p.unsupported("json encoding of a symbolic byte beyond ASCII")
	}
	return append(p.strBytes("\\u00"), p.hexBytes([]*Term{b})...)
}

func (p *Path) jstr(out []*Term, s []*Term) []*Term {
	out = append(out, p.byteC('"'))
	for _, b := range s {
		if !p.plain(b) {
			if b.isConst() {
				switch {
				case b.u == '"' || b.u == '\\':
					out = append(out, p.byteC('\\'), b)
				case b.u == '\n':
					out = append(out, p.byteC('\\'), p.byteC('n'))
				case b.u == '<' || b.u == '>' || b.u == '&' || b.u < 0x20:
					out = append(out, p.strBytes("\\u00"+string("0123456789abcdef"[b.u>>4])+string("0123456789abcdef"[b.u&15]))...)
				default:
					out = append(out, b)
				}
				continue
			}
			out = append(out, p.jesc(b)...)
			continue
		}
		out = append(out, b)
	}
	return append(out, p.byteC('"'))
}

// ---- decoding

type jparser struct {
	p  *Path
	b  []*Term
	i  int
	df bool // DisallowUnknownFields
}

func (j *jparser) peek() *Term {
	if j.i >= len(j.b) {
		j.p.jfail("unexpected end of JSON input")
	}
	return j.b[j.i]
}

// ch returns the concrete structural character at the cursor, 0 when it is
// part of symbolic data.
func (j *jparser) ch() byte {
	t := j.peek()
	if t.isConst() {
		return byte(t.u)
	}
	if t.op == OJnum {
		return 1
	}
	j.p.unsupported("symbolic JSON structure")
	return 0
}

func (j *jparser) ws() {
	for j.i < len(j.b) && j.b[j.i].isConst() {
		switch j.b[j.i].u {
		case ' ', '\t', '\n', '\r':
			j.i++
		default:
			return
		}
	}
}

func (j *jparser) lit(s string) {
	for k := 0; k < len(s); k++ {
		if j.i >= len(j.b) || !j.b[j.i].isConst() || byte(j.b[j.i].u) != s[k] {
			j.p.jfail("invalid literal")
		}
		j.i++
	}
}

// str parses a string literal into its (unescaped) bytes.
func (j *jparser) str() []*Term {
	j.lit("\"")
	var r []*Term
	for {
		t := j.peek()
		if t.isConst() {
			switch t.u {
			case '"':
				j.i++
				return r
			case '\\':
				j.i++
				e := j.ch()
				j.i++
				switch e {
				case 'n':
					r = append(r, j.p.byteC('\n'))
				case 't':
					r = append(r, j.p.byteC('\t'))
				case 'r':
					r = append(r, j.p.byteC('\r'))
				case '"', '\\', '/':
					r = append(r, j.p.byteC(e))
				case 'u':
					if j.i+4 <= len(j.b) && j.b[j.i].isConst() && j.b[j.i].u == '0' && j.b[j.i+1].isConst() && j.b[j.i+1].u == '0' && j.b[j.i+2].op == OHexd && j.b[j.i+3].op == OHexd {
						r = append(r, j.p.c.Concat(j.b[j.i+2].a[0], j.b[j.i+3].a[0]))
						j.i += 4
						continue
					}
					s := ""
					for k := 0; k < 4; k++ {
						s += string(j.ch())
						j.i++
					}
					n, err := strconv.ParseUint(s, 16, 32)
					if err != nil {
						j.p.jfail("invalid escape")
					}
					r = append(r, j.p.strBytes(string(rune(n)))...)
				default:
					j.p.jfail("invalid escape")
				}
				continue
			}
			if t.u < 0x20 {
				j.p.jfail("control character in string")
			}
		} else if !j.p.plain(t) {
			j.p.unsupported("json string with symbolic special character")
		}
		r = append(r, t)
		j.i++
	}
}

// number returns the token bytes of a number.
func (j *jparser) number() []*Term {
	s := j.i
	for j.i < len(j.b) {
		t := j.b[j.i]
		if t.op == OJnum {
			j.i++
			continue
		}
		if t.isConst() && (t.u >= '0' && t.u <= '9' || t.u == '-' || t.u == '+' || t.u == '.' || t.u == 'e' || t.u == 'E') {
			j.i++
			continue
		}
		break
	}
	if s == j.i {
		j.p.jfail("invalid character looking for beginning of value")
	}
	return j.b[s:j.i]
}

func (j *jparser) skip() []*Term {
	s := j.i
	j.ws()
	switch c := j.ch(); {
	case c == '"':
		j.str()
	case c == '{':
		j.i++
		j.ws()
		if j.ch() == '}' {
			j.i++
			break
		}
		for {
			j.ws()
			j.str()
			j.ws()
			j.lit(":")
			j.skip()
			j.ws()
			if j.ch() == ',' {
				j.i++
				continue
			}
			j.lit("}")
			break
		}
	case c == '[':
		j.i++
		j.ws()
		if j.ch() == ']' {
			j.i++
			break
		}
		for {
			j.skip()
			j.ws()
			if j.ch() == ',' {
				j.i++
				continue
			}
			j.lit("]")
			break
		}
	case c == 't':
		j.lit("true")
	case c == 'f':
		j.lit("false")
	case c == 'n':
		j.lit("null")
	default:
		j.number()
	}
	return j.b[s:j.i]
}

// dec decodes the next value into *addr of type t.
func (j *jparser) dec(t types.Type, addr *Value) {
	p := j.p
	j.ws()
	if al, ok := t.(*types.Alias); ok {
		t = types.Unalias(al)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if j.ch() == 'n' {
			j.lit("null")
			*addr = (*Value)(nil)
			return
		}
		q, _ := (*addr).(*Value)
		if q == nil {
			q = cell(p.zero(pt.Elem()))
		}
		j.dec(pt.Elem(), q)
		*addr = q
		return
	}
	ptr := types.NewPointer(t)
	if m := p.findMeth(ptr, "UnmarshalJSON"); m != nil {
		raw := j.skip()
		e := p.callFn(p.cur, m, []Value{addr, p.bytesToSlice(raw)}, nil).(Iface)
		if e.T != nil {
			panic(jerr{e})
		}
		return
	}
	if m := p.findMeth(ptr, "UnmarshalText"); m != nil {
		if j.ch() == 'n' {
			j.lit("null")
			return
		}
		if j.ch() != '"' {
			if isBigInt(t) {
				raw := j.number()
				v, ok := p.bigParse(raw, 10)
				if !ok {
					p.jfail("bad number")
				}
				*addr = v
				return
			}
			p.jfail("cannot unmarshal into Go value")
		}
		s := j.str()
		e := p.callFn(p.cur, m, []Value{addr, p.bytesToSlice(s)}, nil).(Iface)
		if e.T != nil {
			panic(jerr{e})
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			if j.ch() == 'n' {
				j.lit("null")
				*addr = Iface{}
				return
			}
			p.jfail("cannot unmarshal into interface")
		}
		*addr = j.any()
		return
	case *types.Basic:
		if j.ch() == 'n' {
			j.lit("null")
			return
		}
		if w, signed, ok := intInfo(u); ok {
			if c := j.ch(); c == '"' || c == '{' || c == '[' || c == 't' || c == 'f' {
				p.jfail("cannot unmarshal into integer")
			}
			raw := j.number()
			v, ok := p.bigParse(raw, 10)
			if !ok {
				p.jfail("cannot unmarshal number")
			}
			*addr = p.fitInt(v, w, signed)
			return
		}
		if isBool(u) {
			switch j.ch() {
			case 't':
				j.lit("true")
				*addr = p.c.T
			case 'f':
				j.lit("false")
				*addr = p.c.F
			default:
				p.jfail("cannot unmarshal into bool")
			}
			return
		}
		if isString(u) {
			if j.ch() != '"' {
				p.jfail("cannot unmarshal into string")
			}
			*addr = mkStr(j.str())
			return
		}
	case *types.Struct:
		if j.ch() == 'n' {
			j.lit("null")
			return
		}
		if j.ch() != '{' {
			p.jfail("cannot unmarshal into struct")
		}
		fs := p.jfields(u)
		j.obj(func(name string) {
			var hit *jfield
			for k := range fs {
				if fs[k].name == name {
					hit = &fs[k]
				}
			}
			if hit == nil {
				for k := range fs {
					if strings.EqualFold(fs[k].name, name) {
						hit = &fs[k]
					}
				}
			}
			if hit == nil {
				if j.df {
					p.jfail("unknown field " + name)
				}
				j.skip()
				return
			}
			a := addr
			for _, i := range hit.idx {
				a = &(*a).(Struct)[i]
			}
			j.dec(hit.t, a)
		})
		return
	case *types.Slice:
		if j.ch() == 'n' {
			j.lit("null")
			*addr = []Value(nil)
			return
		}
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 && j.ch() == '"' {
			s := j.str()
			r, ok := p.b64dec(s, true)
			if !ok {
				p.jfail("illegal base64")
			}
			*addr = p.bytesToSlice(r)
			return
		}
		if j.ch() != '[' {
			p.jfail("cannot unmarshal into slice")
		}
		xs := []Value{}
		j.arr(func() {
			c := cell(p.zero(u.Elem()))
			j.dec(u.Elem(), c)
			xs = append(xs, *c)
		})
		*addr = xs
		return
	case *types.Array:
		if j.ch() == 'n' {
			j.lit("null")
			return
		}
		if j.ch() != '[' {
			p.jfail("cannot unmarshal into array")
		}
		a := (*addr).(Array)
		n := 0
		j.arr(func() {
			if n < len(a) {
				j.dec(u.Elem(), &a[n])
			} else {
				j.skip()
			}
			n++
		})
		for ; n < len(a); n++ {
			a[n] = p.zero(u.Elem())
		}
		return
	case *types.Map:
		if j.ch() == 'n' {
			j.lit("null")
			*addr = (*MapV)(nil)
			return
		}
		m, _ := (*addr).(*MapV)
		if m == nil {
			m = newMap(u.Key())
			*addr = m
		}
		kt := p.findMeth(types.NewPointer(u.Key()), "UnmarshalText")
		j.objSym(func(name []*Term) {
			c := cell(p.zero(u.Elem()))
			j.dec(u.Elem(), c)
			var k Value = mkStr(name)
			if !isString(u.Key()) {
				if kt == nil {
					p.unsupported("json map key " + u.Key().String())
				}
				kc := cell(p.zero(u.Key()))
				if e := p.callFn(p.cur, kt, []Value{kc, p.bytesToSlice(name)}, nil).(Iface); e.T != nil {
					panic(jerr{e})
				}
				k = *kc
			}
			p.mapSet(m, k, *c)
		})
		return
	}
	p.unsupported("json decoding into " + t.String())
}

func (p *Path) fitInt(v BigVal, w int, signed bool) *Term {
	m := v.Mag
	if signed {
		lim := p.c.Const(w+1, 1)
		lim = p.c.Shl(lim, p.c.Const(w+1, uint64(w-1)))
		mm := m
		if m.w < w+1 {
			mm = p.c.Zext(m, w+1)
		} else {
			lim = p.c.Zext(lim, m.w)
		}
		ok := p.c.Ite(v.Neg, p.c.Ule(mm, lim), p.c.Ult(mm, lim))
		if !p.branch(ok) {
			p.jfail("number out of range")
		}
		x := p.c.Extract(mm, w-1, 0)
		return p.c.Ite(v.Neg, p.c.Neg(x), x)
	}
	if p.branch(v.Neg) {
		p.jfail("negative number")
	}
	if m.w > w {
		if !p.branch(p.c.Eq(p.c.Extract(m, m.w-1, w), p.c.Const0(m.w-w))) {
			p.jfail("number out of range")
		}
		return p.c.Extract(m, w-1, 0)
	}
	return p.c.Zext(m, w)
}

func (j *jparser) obj(f func(name string)) {
	j.objSym(func(k []*Term) { f(j.p.str(mkStr(k))) })
}

func (j *jparser) objSym(f func(name []*Term)) {
	j.lit("{")
	j.ws()
	if j.ch() == '}' {
		j.i++
		return
	}
	for {
		j.ws()
		k := j.str()
		j.ws()
		j.lit(":")
		f(k)
		j.ws()
		if j.ch() == ',' {
			j.i++
			continue
		}
		j.lit("}")
		return
	}
}

func (j *jparser) arr(f func()) {
	j.lit("[")
	j.ws()
	if j.ch() == ']' {
		j.i++
		return
	}
	for {
		f()
		j.ws()
		if j.ch() == ',' {
			j.i++
			continue
		}
		j.lit("]")
		return
	}
}

func (j *jparser) any() Value {
	p := j.p
	anyT := types.NewInterfaceType(nil, nil)
	switch c := j.ch(); {
	case c == '"':
		return Iface{types.Typ[types.String], mkStr(j.str())}
	case c == 't':
		j.lit("true")
		return Iface{types.Typ[types.Bool], p.c.T}
	case c == 'f':
		j.lit("false")
		return Iface{types.Typ[types.Bool], p.c.F}
	case c == 'n':
		j.lit("null")
		return Iface{}
	case c == '{':
		m := newMap(types.Typ[types.String])
		j.obj(func(n string) {
			j.ws()
			p.mapSet(m, n, j.any())
		})
		return Iface{types.NewMap(types.Typ[types.String], anyT), m}
	case c == '[':
		xs := []Value{}
		j.arr(func() { j.ws(); xs = append(xs, j.any()) })
		return Iface{types.NewSlice(anyT), xs}
	}
	raw := j.number()
	if cs, ok := concBytes(raw); ok {
		f, err := strconv.ParseFloat(string(cs), 64)
		if err == nil {
			return Iface{types.Typ[types.Float64], f}
		}
	}
	p.unsupported("json number into interface")
	return nil
}

func (p *Path) jguard(f func()) (e Value) {
	sc, sd := p.cur, p.depth
	e = Iface{}
	defer func() {
		if r := recover(); r != nil {
			je, ok := r.(jerr)
			if !ok {
				panic(r)
			}
			p.cur, p.depth = sc, sd
			e = je.v
		}
	}()
	f()
	return
}

func init() {
	reg("encoding/json.Marshal", func(p *Path, fn *ssa.Function, a []Value) Value {
		var out []*Term
		e := p.jguard(func() {
			i := a[0].(Iface)
			if i.T == nil {
				out = p.strBytes("null")
				return
			}
			out = p.jenc(nil, i.T, i.V, nil)
		})
		if e.(Iface).T != nil {
			return Tuple{[]Value(nil), e}
		}
		return Tuple{p.bytesToSlice(out), Iface{}}
	})
	intrinsics["encoding/json.MarshalIndent"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return intrinsics["encoding/json.Marshal"](p, fn, a[:1])
	}
	reg("encoding/json.Unmarshal", func(p *Path, fn *ssa.Function, a []Value) Value {
		bs := p.sliceTerms(a[0])
		i := a[1].(Iface)
		q, ok := i.V.(*Value)
		if i.T == nil || !ok || q == nil {
			return p.errIface("json: Unmarshal(nil)")
		}
		j := &jparser{p: p, b: bs}
		// syntax check first: the target is untouched by malformed input
		if e := p.jguard(func() {
			j.skip()
			j.ws()
			if j.i != len(bs) {
				p.jfail("invalid character after top-level value")
			}
		}); e.(Iface).T != nil {
			return e
		}
		j.i = 0
		return p.jguard(func() { j.dec(deref(i.T), q) })
	})
	reg("encoding/json.Valid", func(p *Path, fn *ssa.Function, a []Value) Value {
		j := &jparser{p: p, b: p.sliceTerms(a[0])}
		e := p.jguard(func() {
			j.skip()
			j.ws()
			if j.i != len(j.b) {
				p.jfail("x")
			}
		})
		return p.c.Bool(e.(Iface).T == nil)
	})
}
