package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v     Value // Iface
	where string
}

type endKind int

const (
	EndOK endKind = iota
	EndInfeasible
	EndInconclusive
	EndViolation
	EndAbort
)

type pathEnd struct {
	kind endKind
	msg  string
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	intr  intrinsic
	redir *ssa.Function
	ready bool
	name  string
	pure  map[*ssa.BasicBlock]*diamond
	obs   int8 // whether accesses count as races: 1 yes, 2 no
}

type deferred struct {
	fn   Value
	args []Value
	tail *deferred
}

type frame struct {
	p         *Path
	fn        *ssa.Function
	fi        *fnInfo
	regs      []Value
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	pv        targetPanic
	recovered bool
	caller    *frame
	merged    map[*ssa.Phi]Value
}

func (p *Path) unsupported(msg string) {
	panic(pathEnd{EndInconclusive, "unsupported: " + msg + " @ " + p.where()})
}

func (p *Path) where() string {
	s := ""
	n := 0
	for f := p.cur; f != nil && n < 8; f = f.caller {
		if n > 0 {
			s += " < "
		}
		s += f.fn.String()
		n++
	}
	return s
}

func (p *Path) errIface(msg string) Value {
	return Iface{p.eng.errStrT, func() Value { var v Value = Struct{msg}; return &v }()}
}

func (p *Path) goPanic(v Value) { panic(targetPanic{v, p.where()}) }
func (p *Path) goPanicStr(msg string) {
	panic(targetPanic{p.errIface(msg), p.where()})
}

func (fr *frame) get(v ssa.Value) Value {
	switch k := v.(type) {
	case *ssa.Const:
		return fr.p.constVal(k)
	case *ssa.Function:
		return k
	case *ssa.Builtin:
		return k
	case *ssa.Global:
		return fr.p.global(k)
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, fr.fn))
	}
	return fr.regs[i]
}

func (fr *frame) set(v ssa.Value, x Value) { fr.regs[fr.fi.idx[v]] = x }

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{}
	w.fns[fn] = fi
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	fi.name = o.String()
	fi.intr = lookupIntrinsic(fi.name, o)
	if r, ok := w.eng.redirect[fi.name]; ok && r != fn {
		fi.redir, fi.intr = r, nil
	}
	return fi
}

func (w *Worker) prepare(fn *ssa.Function, fi *fnInfo) {
	if fi.ready {
		return
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	fi.idx = map[ssa.Value]int{}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, v := range fn.Params {
		add(v)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.ready = true
}

func (p *Path) call(caller *frame, fnv Value, args []Value) Value {
	switch f := fnv.(type) {
	case *ssa.Function:
		if f == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return p.callFn(caller, f, args, nil)
	case *Closure:
		return p.callFn(caller, f.Fn, args, f.Env)
	case *NativeFn:
		return f.F(p, args)
	case *ssa.Builtin:
		return p.builtin(caller, f, args)
	}
	p.unsupported(fmt.Sprintf("call of %T", fnv))
	return nil
}

func (p *Path) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := p.w.info(fn)
	if fi.intr != nil {
		if p.rc != nil {
			p.touchArgs(fn, args)
		}
		return fi.intr(p, fn, args)
	}
	if fi.redir != nil {
		fn = fi.redir
		fi = p.w.info(fn)
	}
	if fn.Synthetic == "package initializer" {
		// imports' initialisers run lazily, on first use
		p.ensureInit(fn.Pkg)
		return nil
	}
	return p.runFn(caller, fn, fi, args, env)
}

func (p *Path) runFn(caller *frame, fn *ssa.Function, fi *fnInfo, args []Value, env []Value) Value {
	p.w.prepare(fn, fi)
	if fn.Blocks == nil {
		p.unsupported("external function " + fi.name)
	}
	if strings.HasPrefix(fi.name, "reflect.") || strings.HasPrefix(fi.name, "(reflect.") || strings.HasPrefix(fi.name, "(*reflect.") {
		p.unsupported("reflection: " + fi.name)
	}
	p.noteFn(fn)
	fr := &frame{p: p, fn: fn, fi: fi, regs: make([]Value, fi.n), env: env, caller: caller}
	p.depth++
	if p.depth > 3000 {
		panic(pathEnd{EndInconclusive, "call depth bound @ " + p.where()})
	}
	for i, prm := range fn.Params {
		fr.regs[fi.idx[prm]] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.regs[fi.idx[fv]] = env[i]
	}
	for _, l := range fn.Locals {
		cell := new(Value)
		*cell = p.zero(deref(l.Type()))
		fr.regs[fi.idx[l]] = cell
	}
	fr.block = fn.Blocks[0]
	saved := p.cur
	p.cur = fr
	for fr.block != nil {
		fr.runBlocks()
	}
	p.cur = saved
	p.depth--
	return fr.result
}

// runBlocks executes until return or a panic; deferred calls run on panics.
func (fr *frame) runBlocks() {
	hasDefer := fr.fn.Recover != nil || fr.defersUsed()
	if hasDefer {
		defer func() {
			if fr.block == nil {
				return
			}
			r := recover()
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r) // engine control flow
			}
			fr.p.cur = fr
			fr.panicking = true
			fr.pv = tp
			fr.p.depth = fr.depthOf()
			fr.runDefers()
			// recovered: continue in the recover block
			fr.block = fr.fn.Recover
			if fr.block == nil {
				fr.result = fr.p.zeroResults(fr.fn)
			}
		}()
	}
	for {
		b := fr.block
		for _, in := range b.Instrs {
			p := fr.p
			p.steps++
			if p.steps > p.maxSteps {
				panic(pathEnd{EndInconclusive, "step bound @ " + p.where()})
			}
			switch fr.exec(in) {
			case 1:
				fr.block = nil
				return
			case 2:
				goto next
			}
		}
	next:
		if fr.block == nil {
			return
		}
	}
}

func (fr *frame) depthOf() int {
	n := 0
	for f := fr; f != nil; f = f.caller {
		n++
	}
	return n
}

func (fr *frame) defersUsed() bool {
	return fr.fn.Recover != nil
}

func (p *Path) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(r.At(0).Type())
	}
	return p.zero(r)
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pv)
	}
}

func (fr *frame) runDefer(d *deferred) {
	var ok bool
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			fr.panicking = true
			fr.pv = tp
			fr.p.cur = fr
		}
	}()
	fr.p.call(fr, d.fn, d.args)
	ok = true
}

// doRecover implements recover() called from a deferred function's frame.
func (p *Path) doRecover(caller *frame) Value {
	// caller is the deferred function; its caller is the panicking frame
	if caller != nil && caller.caller != nil && caller.caller.panicking {
		f := caller.caller
		f.panicking = false
		v := f.pv.v
		return v
	}
	return Iface{}
}

func (fr *frame) ptr(v ssa.Value) *Value {
	x := fr.get(v)
	switch q := x.(type) {
	case *Value:
		if q == nil {
			fr.p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return q
	case UPtr:
		if qq, ok := q.V.(*Value); ok && qq != nil {
			return qq
		}
	}
	fr.p.unsupported(fmt.Sprintf("pointer %T", x))
	return nil
}

// exec returns 0 continue, 1 return, 2 jump.
func (fr *frame) exec(instr ssa.Instruction) int {
	p := fr.p
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, fr.unop(in))
	case *ssa.BinOp:
		fr.set(in, p.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Call:
		fn, args := fr.prepareCall(&in.Call)
		fr.set(in, p.call(fr, fn, args))
		p.cur = fr
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		if p.rc != nil {
			p.touchSlice(fr.get(in.X), false)
		}
		fr.set(in, p.conv(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, p.conv(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).([]Value)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		if len(s) < n {
			p.goPanicStr("runtime error: cannot convert slice to array pointer: length too short")
		}
		cell := new(Value)
		*cell = Array(s[:n:n])
		fr.set(in, cell)
	case *ssa.MakeInterface:
		fr.set(in, Iface{in.X.Type(), fr.get(in.X)})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, fr.slice(in))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = copyVal(fr.get(in.Results[0]))
		default:
			r := make(Tuple, len(in.Results))
			for i, x := range in.Results {
				r[i] = copyVal(fr.get(x))
			}
			fr.result = r
		}
		return 1
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		p.goPanic(fr.get(in.X))
	case *ssa.Store:
		a := fr.ptr(in.Addr)
		if p.rc != nil && !ownAlloc(in.Addr) {
			p.writeCell(a)
		}
		store(a, fr.get(in.Val))
	case *ssa.If:
		cond := fr.get(in.Cond).(*Term)
		if !cond.isConst() {
			if d := fr.diamond(); d != nil {
				if fr.mergeDiamond(d, cond) {
					return 2
				}
			}
		}
		succ := 1
		if p.branch(cond) {
			succ = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[succ]
		return 2
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return 2
	case *ssa.Defer:
		fn, args := fr.prepareCall(&in.Call)
		fr.defers = &deferred{fn: fn, args: args, tail: fr.defers}
	case *ssa.Go:
		fn, args := fr.prepareCall(&in.Call)
		p.spawn(fn, args)
	case *ssa.MakeChan:
		n := p.concInt(fr.get(in.Size).(*Term))
		fr.set(in, &ChanV{cap: int(n)})
	case *ssa.Send:
		p.chanSend(fr.get(in.Chan).(*ChanV), fr.get(in.X))
	case *ssa.Alloc:
		if in.Heap {
			cell := new(Value)
			*cell = p.zero(deref(in.Type()))
			fr.set(in, cell)
		} else {
			cell := fr.regs[fr.fi.idx[in]].(*Value)
			*cell = p.zero(deref(in.Type()))
		}
	case *ssa.MakeSlice:
		n := int(p.concInt(fr.get(in.Len).(*Term)))
		c := int(p.concInt(fr.get(in.Cap).(*Term)))
		if n < 0 || c < n || c > 1<<24 {
			p.goPanicStr("runtime error: makeslice: len out of range")
		}
		s := make([]Value, c)
		et := in.Type().Underlying().(*types.Slice).Elem()
		if c > 0 {
			z := p.zero(et)
			for i := range s {
				if i > 0 {
					switch z.(type) {
					case Struct, Array:
						z = p.zero(et)
					}
				}
				s[i] = z
			}
		}
		fr.set(in, s[:n])
	case *ssa.MakeMap:
		fr.set(in, newMap(in.Type().Underlying().(*types.Map).Key()))
	case *ssa.MapUpdate:
		p.maybeYield("map")
		m := fr.get(in.Map).(*MapV)
		if p.rc != nil {
			p.touchMap(m, true)
		}
		p.mapSet(m, fr.get(in.Key), fr.get(in.Value))
	case *ssa.Lookup:
		fr.set(in, fr.lookup(in))
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = fr.get(b)
		}
		fr.set(in, &Closure{in.Fn.(*ssa.Function), env})
	case *ssa.Phi:
		// all phis of a block are evaluated together
		fr.phis()
	case *ssa.FieldAddr:
		q := fr.ptr(in.X)
		s, ok := (*q).(Struct)
		if !ok {
			p.unsupported(fmt.Sprintf("FieldAddr on %T (%v)", *q, in.X.Type()))
		}
		fr.set(in, &s[in.Field])
	case *ssa.Field:
		s, ok := fr.get(in.X).(Struct)
		if !ok {
			p.unsupported(fmt.Sprintf("Field on %T", fr.get(in.X)))
		}
		fr.set(in, copyVal(s[in.Field]))
	case *ssa.IndexAddr:
		fr.set(in, fr.indexAddr(in))
	case *ssa.Index:
		fr.set(in, fr.index(in))
	case *ssa.TypeAssert:
		fr.set(in, p.typeAssert(in, fr.get(in.X).(Iface)))
	case *ssa.Range:
		x := fr.get(in.X)
		switch m := x.(type) {
		case *MapV:
			if p.rc != nil {
				p.touchMap(m, false)
			}
			fr.set(in, p.mapIter(m))
		case string, *SymStr:
			fr.set(in, &strIter{b: p.strBytes(m)})
		default:
			p.unsupported(fmt.Sprintf("range %T", x))
		}
	case *ssa.Next:
		fr.set(in, p.next(in, fr.get(in.Iter)))
	case *ssa.Select:
		p.unsupported("select")
	default:
		p.unsupported(fmt.Sprintf("instr %T", instr))
	}
	return 0
}

func (fr *frame) phis() {
	b := fr.block
	if fr.prev == nil {
		return // this block's phis are already evaluated
	}
	pi := -1
	for i, pr := range b.Preds {
		if pr == fr.prev {
			pi = i
			break
		}
	}
	var vals []Value
	var ins []*ssa.Phi
	for _, x := range b.Instrs {
		ph, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, fr.get(ph.Edges[pi]))
		ins = append(ins, ph)
	}
	if fr.merged != nil {
		for i, ph := range ins {
			if v, ok := fr.merged[ph]; ok {
				vals[i] = v
			}
		}
		fr.merged = nil
	}
	for i, ph := range ins {
		fr.set(ph, vals[i])
	}
	fr.prev = nil // mark done: the remaining phis are no-ops
}

func (fr *frame) unop(in *ssa.UnOp) Value {
	p := fr.p
	switch in.Op {
	case token.MUL:
		q := fr.ptr(in.X)
		if p.rc != nil && !ownAlloc(in.X) {
			p.readCell(q)
		}
		return copyVal(*q)
	case token.NOT:
		return p.c.Not(fr.get(in.X).(*Term))
	case token.SUB:
		switch x := fr.get(in.X).(type) {
		case *Term:
			return p.c.Neg(x)
		case float64:
			return -x
		}
	case token.XOR:
		return p.c.BNot(fr.get(in.X).(*Term))
	case token.ARROW:
		v, ok := p.chanRecv(fr.get(in.X).(*ChanV), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, p.c.Bool(ok)}
		}
		return v
	}
	p.unsupported("unop " + in.Op.String())
	return nil
}

func (p *Path) toWidth(n *Term, w int) *Term {
	// shift count to width w, saturating
	if n.w == w {
		return n
	}
	if n.w < w {
		return p.c.Zext(n, w)
	}
	lim := p.c.Const(n.w, uint64(w))
	return p.c.Ite(p.c.Ult(n, lim), p.c.Extract(n, w-1, 0), p.c.Const(w, uint64(w)&mask(w)))
}

func (p *Path) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	c := p.c
	switch op {
	case token.EQL:
		return p.equals(t, x, y)
	case token.NEQ:
		return c.Not(p.equals(t, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			break
		}
		if a.w == 0 {
			switch op {
			case token.AND:
				return c.And(a, b)
			case token.OR:
				return c.Or(a, b)
			}
			break
		}
		_, signed, _ := intInfo(t)
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			if p.branch(c.Eq(b, c.Const0(b.w))) {
				p.goPanicStr("runtime error: integer divide by zero")
			}
			o := map[bool]map[bool]Op{true: {true: OSdiv, false: OSrem}, false: {true: OUdiv, false: OUrem}}[signed][op == token.QUO]
			return c.DivRem(o, a, b)
		case token.AND:
			return c.BAnd(a, b)
		case token.OR:
			return c.BOr(a, b)
		case token.XOR:
			return c.BXor(a, b)
		case token.AND_NOT:
			return c.BAnd(a, c.BNot(b))
		case token.SHL, token.SHR:
			_, ys, _ := intInfo(yt)
			if ys && !nonNeg(b) {
				if p.branch(c.Slt(b, c.Const0(b.w))) {
					p.goPanicStr("runtime error: negative shift amount")
				}
			}
			if a.w == 8 && !b.isConst() && b.w > 8 || b.w != a.w {
				if b.w > a.w || b.w < a.w {
					// saturate when the count cannot be represented
					if b.w > a.w {
						if b.isConst() {
							if b.Big().BitLen() > a.w || b.u >= uint64(a.w) {
								b = c.Const(a.w, mask(a.w))
							} else {
								b = c.Const(a.w, b.u)
							}
						} else if b.umax().BitLen() <= a.w {
							b = c.Extract(b, a.w-1, 0)
						} else {
							b = c.Ite(c.Ult(b, c.Const(b.w, uint64(a.w))), c.Extract(b, a.w-1, 0), c.Ones(a.w))
						}
					} else {
						b = c.Zext(b, a.w)
					}
				}
			}
			if op == token.SHL {
				return c.Shl(a, b)
			}
			if signed {
				return c.Ashr(a, b)
			}
			return c.Lshr(a, b)
		case token.LSS:
			if signed {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if signed {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if signed {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if signed {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	case string, *SymStr:
		if op == token.ADD {
			if s, ok := x.(string); ok {
				if s2, ok := y.(string); ok {
					return s + s2
				}
			}
			return mkStr(append(append([]*Term{}, p.strBytes(x)...), p.strBytes(y)...))
		}
		lt := p.bytesLess(p.strBytes(x), p.strBytes(y))
		gt := p.bytesLess(p.strBytes(y), p.strBytes(x))
		switch op {
		case token.LSS:
			return lt
		case token.LEQ:
			return c.Not(gt)
		case token.GTR:
			return gt
		case token.GEQ:
			return c.Not(lt)
		}
	}
	p.unsupported(fmt.Sprintf("binop %v %T %T", op, x, y))
	return nil
}

// bytesLess: lexicographic comparison as a term.
func (p *Path) bytesLess(a, b []*Term) *Term {
	n := min(len(a), len(b))
	var r *Term
	if len(a) < len(b) {
		if n == 0 {
			return p.c.T
		}
		return p.c.Ule(p.catBytes(a[:n]), p.catBytes(b[:n]))
	}
	if n == 0 {
		return p.c.F
	}
	r = p.c.Ult(p.catBytes(a[:n]), p.catBytes(b[:n]))
	return r
}

func (p *Path) resize(x *Term, from, to types.Type) *Term {
	fw, fs, _ := intInfo(from)
	tw, _, _ := intInfo(to)
	if fw != x.w {
		panic(fmt.Sprintf("resize %v width %d vs %d", from, x.w, fw))
	}
	switch {
	case tw == fw:
		return x
	case tw < fw:
		return p.c.Extract(x, tw-1, 0)
	case fs:
		return p.c.Sext(x, tw)
	}
	return p.c.Zext(x, tw)
}

func (p *Path) conv(to, from types.Type, x Value) Value {
	ut, uf := to.Underlying(), from.Underlying()
	if tp, ok := ut.(*types.Interface); ok && tp != nil {
		return x
	}
	_, _, ti := intInfo(ut)
	_, _, fi := intInfo(uf)
	switch {
	case ti && fi:
		return p.resize(x.(*Term), uf, ut)
	case fi && isFloat(ut):
		t := x.(*Term)
		if !t.isConst() {
			p.unsupported("symbolic int to float")
		}
		_, s, _ := intInfo(uf)
		if s {
			return float64(t.S64())
		}
		return float64(t.u)
	case isFloat(uf) && ti:
		w, _, _ := intInfo(ut)
		return p.c.Const(w, uint64(int64(x.(float64))))
	case isFloat(uf) && isFloat(ut):
		if ut.(*types.Basic).Kind() == types.Float32 {
			return float64(float32(x.(float64)))
		}
		return x
	case fi && isString(ut):
		t := x.(*Term)
		v := p.concInt(t)
		return string(rune(v))
	}
	if isString(uf) {
		if st, ok := ut.(*types.Slice); ok {
			w, _, _ := intInfo(st.Elem())
			if w == 8 {
				bs := p.strBytes(x)
				r := make([]Value, len(bs))
				for i, b := range bs {
					r[i] = b
				}
				return r
			}
			s, ok := x.(string)
			if !ok {
				p.unsupported("symbolic string to runes")
			}
			var r []Value
			for _, c := range s {
				r = append(r, p.c.Const(32, uint64(c)))
			}
			return r
		}
		if isString(ut) {
			return x
		}
	}
	if st, ok := uf.(*types.Slice); ok && isString(ut) {
		w, _, _ := intInfo(st.Elem())
		xs := x.([]Value)
		if w == 8 {
			return mkStr(p.sliceTerms(xs))
		}
		var r []rune
		for _, v := range xs {
			r = append(r, rune(p.concInt(v.(*Term))))
		}
		return string(r)
	}
	// unsafe.Pointer and pointers
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if u, ok := x.(UPtr); ok {
			return u
		}
		return UPtr{x}
	}
	if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		u := x.(UPtr)
		if _, ok := ut.(*types.Pointer); ok {
			if q, ok := u.V.(*Value); ok {
				if q == nil {
					return q
				}
				// *[]byte -> *string style casts
				if isString(deref(ut)) {
					if s, ok := (*q).([]Value); ok {
						cell := new(Value)
						*cell = mkStr(p.sliceTerms(s))
						return cell
					}
				}
				return q
			}
		}
		p.unsupported("unsafe conversion to " + to.String())
	}
	if _, ok := ut.(*types.Pointer); ok {
		return x
	}
	if types.Identical(ut, uf) {
		return x
	}
	if _, ok := ut.(*types.Slice); ok {
		return x
	}
	if at, ok := ut.(*types.Array); ok { // slice to array
		s := x.([]Value)
		n := int(at.Len())
		if len(s) < n {
			p.goPanicStr("runtime error: cannot convert slice to array: length too short")
		}
		return copyVal(Array(s[:n]))
	}
	p.unsupported(fmt.Sprintf("conv %v -> %v", from, to))
	return nil
}

func (fr *frame) slice(in *ssa.Slice) Value {
	p := fr.p
	x := fr.get(in.X)
	var lo, hi, mx int64 = 0, -1, -1
	if in.Low != nil {
		lo = p.concIdx(fr.get(in.Low), in.Low.Type())
	}
	if in.High != nil {
		hi = p.concIdx(fr.get(in.High), in.High.Type())
	}
	if in.Max != nil {
		mx = p.concIdx(fr.get(in.Max), in.Max.Type())
	}
	oob := func() { p.goPanicStr("runtime error: slice bounds out of range") }
	switch s := x.(type) {
	case string, *SymStr:
		bs := p.strBytes(x)
		if in.High == nil {
			hi = int64(len(bs))
		}
		if lo < 0 || hi < lo || hi > int64(len(bs)) {
			oob()
		}
		if cs, ok := x.(string); ok {
			return cs[lo:hi]
		}
		return mkStr(bs[lo:hi])
	case []Value:
		c := int64(cap(s))
		if in.High == nil {
			hi = int64(len(s))
		}
		if in.Max == nil {
			mx = c
		}
		if lo < 0 || hi < lo || mx < hi || mx > c {
			oob()
		}
		return s[lo:hi:mx]
	case *Value:
		if s == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		a, ok := (*s).(Array)
		if !ok {
			p.unsupported(fmt.Sprintf("slice of %T", *s))
		}
		c := int64(len(a))
		if in.High == nil {
			hi = c
		}
		if in.Max == nil {
			mx = c
		}
		if lo < 0 || hi < lo || mx < hi || mx > c {
			oob()
		}
		return []Value(a)[lo:hi:mx]
	}
	p.unsupported(fmt.Sprintf("slice %T", x))
	return nil
}

func (p *Path) concIdx(v Value, t types.Type) int64 {
	x := v.(*Term)
	_, s, _ := intInfo(t)
	if x.w < 64 {
		if s {
			x = p.c.Sext(x, 64)
		} else {
			x = p.c.Zext(x, 64)
		}
	}
	return p.concInt(x)
}

// idxTerm normalises an index operand to 64 bits.
func (p *Path) idxTerm(v Value, t types.Type) *Term {
	x := v.(*Term)
	_, s, _ := intInfo(t)
	if x.w < 64 {
		if s {
			return p.c.Sext(x, 64)
		}
		return p.c.Zext(x, 64)
	}
	return x
}

func (p *Path) boundsCheck(i *Term, n int) {
	ok := p.c.Ult(i, p.c.Const(64, uint64(n)))
	if !p.branch(ok) {
		p.goPanicStr(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
}

// selectIdx reads xs[i] for a symbolic in-range index over scalar elements.
func (p *Path) selectIdx(xs []Value, i *Term) Value {
	if i.isConst() {
		return xs[i.u]
	}
	if len(xs) == 1 {
		return xs[0]
	}
	all := true
	for _, x := range xs {
		if _, ok := x.(*Term); !ok {
			all = false
			break
		}
	}
	if !all || len(xs) > 4096 {
		return xs[p.concInt(i)]
	}
	hi := i.umax()
	n := len(xs)
	if hi.IsInt64() && int(hi.Int64())+1 < n {
		n = int(hi.Int64()) + 1
	}
	if r := p.tableLookup(xs[:n], i); r != nil {
		return r
	}
	r := xs[n-1].(*Term)
	for k := n - 2; k >= 0; k-- {
		r = p.c.Ite(p.c.Eq(i, p.c.Const(64, uint64(k))), xs[k].(*Term), r)
	}
	return r
}

// tableLookup compresses constant tables into runs of affine segments and
// recognises the hexadecimal alphabet.
func (p *Path) tableLookup(xs []Value, i *Term) Value {
	w := xs[0].(*Term).w
	for _, x := range xs {
		if !x.(*Term).isConst() {
			return nil
		}
	}
	if w > 64 || w == 0 {
		return nil
	}
	if w == 8 && len(xs) == 16 {
		hex := true
		for k := range xs {
			if xs[k].(*Term).u != uint64("0123456789abcdef"[k]) {
				hex = false
			}
		}
		if hex {
			return p.c.Hexd(p.c.Extract(i, 3, 0))
		}
	}
	type seg struct {
		lo   int
		base uint64
		step uint64 // 0 constant or 1
	}
	var segs []seg
	for k := 0; k < len(xs); {
		v := xs[k].(*Term).u
		j := k + 1
		var step uint64
		if j < len(xs) {
			step = (xs[j].(*Term).u - v) & mask(w)
			if step > 1 {
				step = 0
			} else {
				for j < len(xs) && xs[j].(*Term).u == (v+step*uint64(j-k))&mask(w) {
					j++
				}
			}
		}
		segs = append(segs, seg{k, v, step})
		k = j
	}
	if len(segs) > 24 {
		return nil
	}
	val := func(s seg) *Term {
		if s.step == 0 {
			return p.c.Const(w, s.base)
		}
		iw := i
		if w < 64 {
			iw = p.c.Extract(i, w-1, 0)
		}
		return p.c.Add(iw, p.c.Const(w, s.base-uint64(s.lo)))
	}
	r := val(segs[len(segs)-1])
	for k := len(segs) - 2; k >= 0; k-- {
		r = p.c.Ite(p.c.Ult(i, p.c.Const(64, uint64(segs[k+1].lo))), val(segs[k]), r)
	}
	return r
}

func (fr *frame) indexAddr(in *ssa.IndexAddr) Value {
	p := fr.p
	x := fr.get(in.X)
	i := p.idxTerm(fr.get(in.Index), in.Index.Type())
	var xs []Value
	switch s := x.(type) {
	case []Value:
		xs = s
	case *Value:
		if s == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		a, ok := (*s).(Array)
		if !ok {
			p.unsupported(fmt.Sprintf("IndexAddr into %T", *s))
		}
		xs = []Value(a)
	default:
		p.unsupported(fmt.Sprintf("IndexAddr %T", x))
	}
	if i.isConst() {
		if i.u >= uint64(len(xs)) {
			p.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.u), len(xs)))
		}
		return &xs[i.u]
	}
	p.boundsCheck(i, len(xs))
	// a symbolic index: when the address is only read, build a select
	if onlyLoaded(in) && len(xs) > 0 {
		if _, ok := xs[0].(*Term); ok {
			cell := new(Value)
			*cell = p.selectIdx(xs, i)
			return cell
		}
	}
	return &xs[p.concInt(i)]
}

func onlyLoaded(in *ssa.IndexAddr) bool {
	refs := in.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
	}
	return true
}

func (fr *frame) index(in *ssa.Index) Value {
	p := fr.p
	x := fr.get(in.X)
	i := p.idxTerm(fr.get(in.Index), in.Index.Type())
	switch s := x.(type) {
	case Array:
		if i.isConst() && i.u < uint64(len(s)) {
			return copyVal(s[i.u])
		}
		p.boundsCheck(i, len(s))
		return copyVal(p.selectIdx(s, i))
	case string:
		if i.isConst() && i.u < uint64(len(s)) {
			return p.byteC(s[i.u])
		}
		p.boundsCheck(i, len(s))
		return p.selectIdx(p.bytesToSlice(p.strBytes(s)), i)
	case *SymStr:
		p.boundsCheck(i, len(s.B))
		return p.selectIdx(p.bytesToSlice(s.B), i)
	}
	p.unsupported(fmt.Sprintf("Index %T", x))
	return nil
}

func (fr *frame) lookup(in *ssa.Lookup) Value {
	p := fr.p
	x := fr.get(in.X)
	switch m := x.(type) {
	case *MapV:
		p.maybeYield("map")
		if p.rc != nil {
			p.touchMap(m, false)
		}
		e := p.mapFind(m, fr.get(in.Index))
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = p.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, p.c.Bool(e != nil)}
		}
		return v
	case string, *SymStr:
		bs := p.strBytes(x)
		i := p.idxTerm(fr.get(in.Index), in.Index.Type())
		p.boundsCheck(i, len(bs))
		return p.selectIdx(p.bytesToSlice(bs), i)
	}
	p.unsupported(fmt.Sprintf("Lookup %T", x))
	return nil
}

type mapIterV struct {
	m    *MapV
	ents []*mapEnt
	i    int
}
type strIter struct {
	b []*Term
	i int
}

func (p *Path) mapIter(m *MapV) *mapIterV {
	if m == nil {
		return &mapIterV{}
	}
	ents := append([]*mapEnt(nil), m.ents...)
	if p.mapRev {
		for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
			ents[i], ents[j] = ents[j], ents[i]
		}
	}
	return &mapIterV{m: m, ents: ents}
}

func (p *Path) next(in *ssa.Next, it Value) Value {
	switch x := it.(type) {
	case *mapIterV:
		if p.rc != nil {
			p.touchMap(x.m, false)
		}
		for x.i < len(x.ents) {
			e := x.ents[x.i]
			x.i++
			if e.dead {
				continue
			}
			return Tuple{p.c.T, copyVal(e.k), copyVal(e.v)}
		}
		tt := in.Type().(*types.Tuple)
		return Tuple{p.c.F, p.zeroOr(tt.At(1).Type()), p.zeroOr(tt.At(2).Type())}
	case *strIter:
		if x.i >= len(x.b) {
			return Tuple{p.c.F, p.c.Const(64, 0), p.c.Const(32, 0)}
		}
		i := x.i
		b := x.b[i]
		if b.isConst() && b.u >= 0x80 {
			// decode concretely
			var buf []byte
			for k := i; k < len(x.b) && k < i+4 && x.b[k].isConst(); k++ {
				buf = append(buf, byte(x.b[k].u))
			}
			for _, r := range string(buf) {
				n := len(string(r))
				if r == 0xFFFD {
					n = 1
				}
				x.i += n
				return Tuple{p.c.T, p.c.Const(64, uint64(i)), p.c.Const(32, uint64(r))}
			}
		}
		if !p.branch(p.c.Ult(b, p.c.Const(8, 0x80))) {
			p.unsupported("range over symbolic non-ASCII string")
		}
		x.i++
		return Tuple{p.c.T, p.c.Const(64, uint64(i)), p.c.Zext(b, 32)}
	}
	p.unsupported("next")
	return nil
}

func (p *Path) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return p.zero(t)
}

func (p *Path) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if v, ok := p.w.impl[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	p.w.impl[k] = v
	return v
}

func (p *Path) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.T != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if p.implements(x.T, it) {
				ok, v = true, x
			}
		} else if types.Identical(x.T, in.AssertedType) {
			ok, v = true, copyVal(x.V)
		}
	}
	if !ok {
		if !in.CommaOk {
			p.goPanicStr(fmt.Sprintf("interface conversion: interface is %v, not %v", x.T, in.AssertedType))
		}
		return Tuple{p.zero(in.AssertedType), p.c.F}
	}
	if in.CommaOk {
		return Tuple{v, p.c.T}
	}
	return v
}

func (p *Path) methodOf(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := p.w.meths[k]; ok {
		return f
	}
	f := p.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	p.w.meths[k] = f
	return f
}

// invoke calls method name on an interface value.
func (p *Path) methodByName(t types.Type, name string) *ssa.Function {
	k := methKey{t, "n!" + name}
	if f, ok := p.w.meths[k]; ok {
		return f
	}
	var f *ssa.Function
	ms := p.eng.prog.MethodSets.MethodSet(t)
	if sel := ms.Lookup(nil, name); sel != nil {
		f = p.eng.prog.MethodValue(sel)
	}
	p.w.meths[k] = f
	return f
}

type methKey struct {
	t types.Type
	n string
}

func (fr *frame) prepareCall(call *ssa.CallCommon) (Value, []Value) {
	p := fr.p
	if call.IsInvoke() {
		recv, ok := fr.get(call.Value).(Iface)
		if !ok {
			p.unsupported(fmt.Sprintf("invoke on %T", fr.get(call.Value)))
		}
		if recv.T == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		f := p.methodOf(recv.T, call.Method)
		if f == nil {
			p.unsupported("method " + call.Method.Name() + " of " + recv.T.String())
		}
		args := make([]Value, 0, len(call.Args)+1)
		args = append(args, recv.V)
		for _, a := range call.Args {
			args = append(args, fr.get(a))
		}
		return f, args
	}
	args := make([]Value, len(call.Args))
	for i, a := range call.Args {
		args[i] = fr.get(a)
	}
	return fr.get(call.Value), args
}

func (p *Path) builtin(caller *frame, b *ssa.Builtin, args []Value) Value {
	if b.Name() == "append" && len(p.gs) > 1 && p.eng.yieldKinds["append"] && caller != nil && caller.fn.Pkg != nil && !strings.Contains(caller.fn.Pkg.Pkg.Path(), "verifharness") {
		defer p.maybeYield("append")
	}
	if p.rc != nil {
		p.touchBuiltin(b.Name(), args)
	}
	c := p.c
	i64 := func(n int) Value { return c.Const(64, uint64(n)) }
	switch b.Name() {
	case "append":
		s, _ := args[0].([]Value)
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case string, *SymStr:
			return p.appendVals(s, p.bytesToSlice(p.strBytes(y)))
		case []Value:
			return p.appendVals(s, y)
		}
	case "copy":
		d := args[0].([]Value)
		switch y := args[1].(type) {
		case string, *SymStr:
			return i64(copy(d, p.bytesToSlice(p.strBytes(y))))
		case []Value:
			n := min(len(d), len(y))
			if n > 0 {
				switch y[0].(type) {
				case Struct, Array:
					tmp := make([]Value, n)
					for i := range tmp {
						tmp[i] = copyVal(y[i])
					}
					for i := range tmp {
						store(&d[i], tmp[i])
					}
					return i64(n)
				}
			}
			return i64(copy(d, y))
		}
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return i64(strLen(x))
		case []Value:
			return i64(len(x))
		case Array:
			return i64(len(x))
		case *Value:
			return i64(len((*x).(Array)))
		case *MapV:
			if x == nil {
				return i64(0)
			}
			return i64(x.n)
		case *ChanV:
			return i64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return i64(cap(x))
		case Array:
			return i64(len(x))
		case *Value:
			return i64(len((*x).(Array)))
		}
	case "delete":
		p.maybeYield("map")
		if m := args[0].(*MapV); m != nil {
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			x.ents, x.idx, x.n = nil, map[string]*mapEnt{}, 0
			return nil
		}
	case "panic":
		p.goPanic(args[0])
	case "recover":
		return p.doRecover(caller)
	case "print", "println":
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Results().At(0).Type()
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if rt, ok := r.(*Term); ok {
				r = c.Ite(p.binop(op, t, a, r, t).(*Term), a.(*Term), rt)
			} else if p.branch(p.binop(op, t, a, r, t).(*Term)) {
				r = a
			}
		}
		return r
	case "close":
		p.release(args[0], true)
		args[0].(*ChanV).closed = true
		return nil
	case "ssa:wrapnilchk":
		if q, ok := args[0].(*Value); ok && q == nil {
			p.goPanicStr("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s := args[0].([]Value)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		return &s[:1][0]
	case "StringData":
		bs := p.bytesToSlice(p.strBytes(args[0]))
		if len(bs) == 0 {
			return (*Value)(nil)
		}
		return &bs[0]
	case "String":
		n := p.concInt(args[1].(*Term))
		if n == 0 {
			return ""
		}
		return mkStr(p.sliceTerms(unsafeSlice(args[0].(*Value), int(n))))
	case "Slice":
		n := p.concInt(args[1].(*Term))
		if q := args[0].(*Value); q != nil {
			return unsafeSlice(q, int(n))
		}
		return []Value(nil)
	}
	p.unsupported("builtin " + b.Name())
	return nil
}

func (p *Path) appendVals(s, y []Value) []Value {
	if len(y) == 0 {
		return s
	}
	n := len(s) + len(y)
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]Value, len(y))
		for i, v := range y {
			tmp[i] = copyVal(v)
		}
		for i, v := range tmp {
			store(&r[len(s)+i], v)
		}
		return r
	}
	// Go's growth formula, so that capacity-dependent aliasing is faithful
	nc := growCap(cap(s), n)
	r := make([]Value, n, nc)
	for i, v := range s {
		r[i] = copyVal(v)
	}
	for i, v := range y {
		r[len(s)+i] = copyVal(v)
	}
	full := r[:nc]
	for i := n; i < nc; i++ {
		full[i] = p.zeroLike(r[0])
	}
	return r
}

func (p *Path) zeroLike(v Value) Value {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return p.c.F
		}
		return p.c.Const0(x.w)
	case string, *SymStr:
		return ""
	case *Value:
		return (*Value)(nil)
	case []Value:
		return []Value(nil)
	case Iface:
		return Iface{}
	case *MapV:
		return (*MapV)(nil)
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = p.zeroLike(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = p.zeroLike(x[i])
		}
		return n
	}
	return v
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mirrors runtime.growslice for one-byte elements (byte slices are
// where capacity aliasing matters in this code base).
func growCap(old, n int) int {
	nc := old
	if n > 2*old {
		nc = n
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < n {
			nc += (nc + 768) / 4
		}
	}
	for _, c := range sizeClasses {
		if c >= nc {
			return c
		}
	}
	return (nc + 8191) &^ 8191
}

var trace = os.Getenv("ENGINE_TRACE") != ""
