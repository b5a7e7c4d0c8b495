package main

import (
	"crypto/sha256"
	"math/big"
	"sync"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
	"golang.org/x/tools/go/ssa"
)

// ---- concrete Poseidon (go-iden3-crypto v0.0.5 parameters), used only when
// every input is a constant; otherwise the hash is an uninterpreted injective
// function.

const posT = 6

var posOnce sync.Once
var posC []*big.Int
var posM [posT][posT]*big.Int

func posInit() {
	leInt := func(b []byte) *big.Int {
		r := make([]byte, len(b))
		for i := range b {
			r[len(b)-1-i] = b[i]
		}
		return new(big.Int).Mod(new(big.Int).SetBytes(r), fieldQ)
	}
	rnd := func(seed string, n int) []*big.Int {
		var r []*big.Int
		h := blake2b.Sum256([]byte(seed))
		for i := 0; i < n; i++ {
			r = append(r, leInt(h[:]))
			h = blake2b.Sum256(h[:])
		}
		return r
	}
	posC = rnd("poseidon_constants", 65)
	c := rnd("poseidon_matrix_0000", 2*posT)
	for i := 0; i < posT; i++ {
		for j := 0; j < posT; j++ {
			d := new(big.Int).Sub(c[i], c[posT+j])
			d.Mod(d, fieldQ)
			posM[i][j] = d.ModInverse(d, fieldQ)
		}
	}
}

func poseidonConc(in []*big.Int) *big.Int {
	posOnce.Do(posInit)
	var st [posT]*big.Int
	for i := range st {
		st[i] = new(big.Int).Set(in[i])
	}
	five := big.NewInt(5)
	for r := 0; r < 65; r++ {
		for i := range st {
			st[i].Add(st[i], posC[r])
			st[i].Mod(st[i], fieldQ)
		}
		if r < 4 || r >= 61 {
			for i := range st {
				st[i].Exp(st[i], five, fieldQ)
			}
		} else {
			st[0].Exp(st[0], five, fieldQ)
		}
		var ns [posT]*big.Int
		for i := range ns {
			ns[i] = new(big.Int)
			for j := range st {
				ns[i].Add(ns[i], new(big.Int).Mul(posM[i][j], st[j]))
			}
			ns[i].Mod(ns[i], fieldQ)
		}
		st = ns
	}
	return st[0]
}

func poseidonHashConc(arr []*big.Int) *big.Int {
	r := big.NewInt(1)
	for i := 0; i < len(arr); i += posT - 1 {
		in := make([]*big.Int, posT)
		j := 0
		for ; j < posT-1 && i+j < len(arr); j++ {
			in[j] = arr[i+j]
		}
		in[j] = r
		for j++; j < posT; j++ {
			in[j] = big.NewInt(0)
		}
		ph := poseidonConc(in)
		r = new(big.Int).Mod(new(big.Int).Add(r, ph), fieldQ)
	}
	return r
}

var posMemo sync.Map

// hash is the application of an ideal hash function: a constant when every
// argument is, an uninterpreted injective function otherwise.
func (p *Path) hash(fn string, w int, args []*Term, conc func([]*big.Int) *big.Int) *Term {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	if all && conc != nil {
		key := fn
		xs := make([]*big.Int, len(args))
		for i, a := range args {
			xs[i] = a.Big()
			key += "," + xs[i].Text(62)
		}
		var v *big.Int
		if m, ok := posMemo.Load(key); ok {
			v = m.(*big.Int)
		} else {
			v = conc(xs)
			posMemo.Store(key, v)
		}
		t := p.c.ConstBig(w, v)
		raw := p.c.UF(fn, w, args...)
		if p.concH[fn] == nil {
			p.concH[fn] = map[int]*Term{}
		}
		if _, ok := p.concH[fn][raw.id]; !ok {
			p.concH[fn][raw.id] = t
			p.concRaw[fn] = append(p.concRaw[fn], raw)
			p.c.constHash[ufFamily(fn)+"/"+v.Text(62)] = raw
			if p.symH[fn] {
				p.s.Assert(p.c.rawEq(raw, t))
			}
		}
		return t
	}
	t := p.c.UF(fn, w, args...)
	if !p.ufSeen[t.id] {
		p.ufSeen[t.id] = true
		p.ufApps = append(p.ufApps, t)
		if !p.symH[fn] {
			p.symH[fn] = true
			for _, r := range p.concRaw[fn] {
				p.s.Assert(p.c.rawEq(r, p.concH[fn][r.id]))
			}
		}
	}
	return t
}

func concSha(xs []*big.Int, n int) []byte {
	b := make([]byte, n)
	if n > 0 {
		xs[0].FillBytes(b)
	}
	return b
}

func (p *Path) byteHash(fam string, w int, bs []*Term, f func([]byte) []byte) *Term {
	n := len(bs)
	if n == 0 {
		// an application like the others, so that it is known to collide with none
		return p.hash(fam+"#0", w, []*Term{p.c.Const(1, 0)}, func([]*big.Int) *big.Int { return new(big.Int).SetBytes(f(nil)) })
	}
	nm := fam + "#" + itoa(n)
	return p.hash(nm, w, []*Term{p.catBytes(bs)}, func(xs []*big.Int) *big.Int {
		return new(big.Int).SetBytes(f(concSha(xs, n)))
	})
}

func itoa(n int) string { return big.NewInt(int64(n)).String() }

func (p *Path) termBytes(t *Term) []Value {
	n := t.w / 8
	r := make([]Value, n)
	for i := range r {
		r[i] = p.c.Extract(t, 8*(n-i)-1, 8*(n-i-1))
	}
	return r
}

func keccak(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

const b58a = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func b58enc(b []byte) string {
	x := new(big.Int).SetBytes(b)
	m := new(big.Int)
	var r []byte
	for x.Sign() > 0 {
		x.DivMod(x, big.NewInt(58), m)
		r = append(r, b58a[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		r = append(r, b58a[0])
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return string(r)
}

func b58dec(s string) []byte {
	x := new(big.Int)
	for i := 0; i < len(s); i++ {
		k := -1
		for q := range b58a {
			if b58a[q] == s[i] {
				k = q
			}
		}
		if k < 0 {
			return []byte{}
		}
		x.Mul(x, big.NewInt(58))
		x.Add(x, big.NewInt(int64(k)))
	}
	n := 0
	for n < len(s) && s[n] == b58a[0] {
		n++
	}
	return append(make([]byte, n), x.Bytes()...)
}

const b58w = 44 // characters of the opaque rendering

func init() {
	P := "github.com/iden3/go-iden3-crypto/poseidon."
	posArgs := func(p *Path, xs []Value) ([]*Term, bool) {
		var ts []*Term
		ok := p.c.T
		for _, x := range xs {
			b := p.big(x)
			m := b.Mag
			if !b.Neg.isFalse() {
				p.unsupported("negative hash input")
			}
			if m.w > 256 {
				p.unsupported("wide hash input")
			}
			m = p.c.Zext(m, 256)
			ok = p.c.And(ok, p.c.Ult(m, p.c.ConstBig(256, fieldQ)))
			ts = append(ts, p.c.Extract(m, 253, 0))
		}
		return ts, p.branch(ok)
	}
	reg(P+"PoseidonHash", func(p *Path, fn *ssa.Function, a []Value) Value {
		ts, ok := posArgs(p, []Value(a[0].(Array)))
		if !ok {
			return Tuple{(*Value)(nil), p.errIface("inputs values not inside Finite Field")}
		}
		h := p.hash("poseidon", 254, ts, poseidonConc)
		return Tuple{cell(BigVal{p.c.F, h}), Iface{}}
	})
	reg(P+"Hash", func(p *Path, fn *ssa.Function, a []Value) Value {
		xs := a[0].([]Value)
		ts, ok := posArgs(p, xs)
		if !ok {
			return Tuple{(*Value)(nil), p.errIface("inputs values not inside Finite Field")}
		}
		if len(ts) == 0 {
			return Tuple{cell(p.bigConst(big.NewInt(1))), Iface{}}
		}
		h := p.hash("phash#"+itoa(len(ts)), 254, ts, poseidonHashConc)
		return Tuple{cell(BigVal{p.c.F, h}), Iface{}}
	})
	reg("crypto/sha256.Sum256", func(p *Path, fn *ssa.Function, a []Value) Value {
		h := p.byteHash("sha256", 256, p.sliceTerms(a[0]), func(b []byte) []byte { s := sha256.Sum256(b); return s[:] })
		return Array(p.termBytes(h))
	})
	kc := func(p *Path, a []Value) *Term {
		var bs []*Term
		for _, x := range varargs(a[0]) {
			bs = append(bs, p.sliceTerms(x)...)
		}
		return p.byteHash("keccak", 256, bs, keccak)
	}
	reg("github.com/ethereum/go-ethereum/crypto.Keccak256", func(p *Path, fn *ssa.Function, a []Value) Value { return p.termBytes(kc(p, a)) })
	reg("github.com/ethereum/go-ethereum/crypto.Keccak256Hash", func(p *Path, fn *ssa.Function, a []Value) Value { return Array(p.termBytes(kc(p, a))) })
	b58 := "github.com/btcsuite/btcutil/base58."
	reg(b58+"Encode", func(p *Path, fn *ssa.Function, a []Value) Value {
		bs := p.sliceTerms(a[0])
		if cs, ok := concBytes(bs); ok {
			return b58enc(cs)
		}
		t := p.c.UF("b58#"+itoa(len(bs)), 8*b58w, p.catBytes(bs))
		r := make([]*Term, b58w)
		for i := range r {
			r[i] = p.c.Extract(t, 8*(b58w-i)-1, 8*(b58w-i-1))
		}
		return mkStr(r)
	})
	reg(b58+"Decode", func(p *Path, fn *ssa.Function, a []Value) Value {
		bs := p.strBytes(a[0])
		if cs, ok := concBytes(bs); ok {
			return p.goBytes(string(b58dec(string(cs))))
		}
		t := p.catBytes(bs)
		if t.op == OUF && ufFamily(t.s) == "b58" {
			return p.termBytes(t.a[0])
		}
		p.unsupported("base58 decoding of arbitrary symbolic text")
		return nil
	})
	reg("crypto/rand.Read", func(p *Path, fn *ssa.Function, a []Value) Value {
		s := a[0].([]Value)
		if len(s) > 0 {
			t := p.input("rand", "rand", 8*len(s))
			for i, v := range p.termBytes(t) {
				s[i] = v
			}
		}
		return Tuple{p.i64(len(s)), Iface{}}
	})
}
