package c11

import (
	"math/big"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/genesis"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

func h(n string) *merkletree.Hash { x := merkletree.Hash(sym.Elem(n)); return &x }

// Equal states come from equal triples only.
//
//verif:entry reach=same,different
func Binding() {
	a, b, c := h("a"), h("b"), h("c")
	d, e, f := h("d"), h("e"), h("f")
	a0, b0, c0 := *a, *b, *c
	s1, s2 := core.IdenState(a, b, c), core.IdenState(d, e, f)
	same := sym.And(kit.EqHash(a, d), kit.EqHash(b, e), kit.EqHash(c, f))
	sym.Assert(kit.EqHash(s1, s2) == same, "two states are equal exactly when all three roots are")
	if same {
		sym.Reach("same")
	} else {
		sym.Reach("different")
	}
	sym.Assert(kit.EqHash(core.IdenState(a, b, c), s1), "the state is a function of the roots")
	sym.Assert(sym.And(kit.EqHash(a, &a0), kit.EqHash(b, &b0), kit.EqHash(c, &c0)), "computing a state leaves the roots")
}

// Swapped roots.
//
//verif:entry reach=ok
func Positions() {
	a, b, c := h("a"), h("b"), h("c")
	s := core.IdenState(a, b, c)
	sym.Assert(kit.EqHash(core.IdenState(b, a, c), s) == kit.EqHash(a, b), "claims and revocations roots are told apart")
	sym.Assert(kit.EqHash(core.IdenState(a, c, b), s) == kit.EqHash(b, c), "revocations and history roots are told apart")
	sym.Assert(kit.EqHash(core.IdenState(c, b, a), s) == kit.EqHash(a, c), "claims and history roots are told apart")
	sym.Assert(merkletree.CheckEntryInField(merkletree.Entry{Data: merkletree.Data{merkletree.ElemBytes(*s)}}), "the state is a field element")
	sym.Reach("ok")
}

// The genesis identifier of a state.
//
//verif:entry reach=same,different
func Genesis() {
	s, t := h("s"), h("t")
	i, j := core.IdGenesisFromIdenState(s), core.IdGenesisFromIdenState(t)
	var gen [27]byte
	copy(gen[:], s[5:])
	want := core.NewID(core.TypeBJP0, gen)
	sym.Assert(sym.EqBytes(i[:], want[:]), "the identifier is type, genesis bytes of the state and checksum")
	if sym.EqBytes(s[5:], t[5:]) {
		sym.Reach("same")
		sym.Assert(sym.EqBytes(i[:], j[:]), "the same genesis bytes give the same identifier")
	} else {
		sym.Reach("different")
		sym.Assert(!sym.EqBytes(i[:], j[:]), "different genesis bytes give different identifiers")
	}
}

func full(n string) *big.Int {
	v := sym.Field(n)
	sym.Assume(v.Cmp(new(big.Int).Lsh(big.NewInt(1), 248)) >= 0)
	return v
}

// The identifier computed from the genesis claims.
//
//verif:entry reach=ok
func FromClaims() {
	// coordinates of full byte length: shorter ones are C12's subject
	pk := &babyjub.PublicKey{X: full("x"), Y: full("y")}
	k := claims.NewClaimKeyBabyJub(pk, claims.BabyJubKeyType(sym.U64("kt")))
	var extra []merkletree.Entrier
	n := sym.Choose("extra", 2)
	if n == 1 {
		var is [claims.IndexSlotLen]byte
		var vs [claims.ValueSlotLen]byte
		copy(is[:], sym.Bytes("is", 4))
		copy(vs[:], sym.Bytes("vs", 4))
		extra = append(extra, claims.NewClaimBasic(is, vs))
	}
	levels := 3
	if sym.Thorough() {
		levels = 6
	}
	mk := func() *merkletree.MerkleTree {
		t, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), levels)
		sym.Assert(err == nil, "a fresh tree opens")
		return t
	}
	clt, rot := mk(), mk()
	id, err := genesis.CalculateIdGenesisMT(clt, rot, k, extra)
	// the reference: the same claims inserted by hand
	c2, r2 := mk(), mk()
	sym.Assert(c2.AddEntry(kit.Entry(k.Entry().Data)) == nil, "the key claim fits")
	if n == 1 {
		if c2.AddEntry(kit.Entry(extra[0].Entry().Data)) != nil {
			sym.Assert(err != nil, "claims that do not fit are an error")
			return
		}
	}
	sym.Assert(err == nil, "the genesis identifier is computed")
	var d merkletree.Data
	d[0] = merkletree.ElemBytes(*c2.RootKey())
	sym.Assert(r2.AddEntry(kit.Entry(d)) == nil, "the root fits")
	var z merkletree.Hash
	st := core.IdenState(c2.RootKey(), &z, r2.RootKey())
	var gen [27]byte
	copy(gen[:], st[5:])
	want := core.NewID(core.TypeBJP0, gen)
	sym.Assert(sym.EqBytes(id[:], want[:]), "the identifier is that of the genesis state")
	sym.Assert(kit.EqHash(clt.RootKey(), c2.RootKey()) && kit.EqHash(rot.RootKey(), r2.RootKey()), "the trees hold the genesis claims and their root")
	sym.Reach("ok")
}
