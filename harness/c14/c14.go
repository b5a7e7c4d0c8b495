// Package c14 checks what a claim's index depends on.
package c14

import (
	"math/big"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

func full(n string) *big.Int {
	v := sym.Field(n)
	sym.Assume(v.Cmp(new(big.Int).Lsh(big.NewInt(1), 248)) >= 0)
	return v
}

// key is what identifies a claim of a type: everything declared as index.
type key struct {
	kind int
	sub  []byte
	data []byte
	a, b *big.Int
	kt   uint64
}

func claim(n string) (claims.Claimer, key) {
	k := key{kind: sym.Choose(n+".kind", 3)}
	var c claims.Claimer
	switch k.kind {
	case 0:
		var is [claims.IndexSlotLen]byte
		var vs [claims.ValueSlotLen]byte
		copy(is[:], sym.Bytes(n+".is", len(is)))
		copy(vs[:], sym.Bytes(n+".vs", len(vs)))
		k.data = append([]byte{}, is[:]...)
		c = claims.NewClaimBasic(is, vs)
	case 1:
		var is [claims.IndexSubjectSlotLen]byte
		var vs [claims.ValueSlotLen]byte
		var id core.ID
		copy(is[:], sym.Bytes(n+".is", len(is)))
		copy(vs[:], sym.Bytes(n+".vs", len(vs)))
		copy(id[:], sym.Bytes(n+".id", len(id)))
		k.data = append([]byte{}, is[:]...)
		k.sub = append([]byte{}, id[:]...)
		c = claims.NewClaimOtherIden(&id, is, vs)
	case 2:
		k.a, k.b, k.kt = full(n+".x"), full(n+".y"), sym.U64(n+".kt")
		c = claims.NewClaimKeyBabyJub(&babyjub.PublicKey{X: k.a, Y: k.b}, claims.BabyJubKeyType(k.kt))
	}
	c.Metadata().RevNonce = sym.U32(n + ".nonce")
	return c, k
}

func same(a, b key) bool {
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case 0:
		return sym.EqBytes(a.data, b.data)
	case 1:
		return sym.And(sym.EqBytes(a.data, b.data), sym.EqBytes(a.sub, b.sub))
	}
	return sym.And(a.a.Cmp(b.a) == 0, a.b.Cmp(b.b) == 0, a.kt == b.kt)
}

func hi(e *merkletree.Entry) *merkletree.Hash {
	h, err := e.HIndex()
	sym.Assert(err == nil, "a claim has an index")
	return h
}

// Two claims collide exactly when type, subject and index data agree.
//
//verif:entry reach=same,different
func Pairs() {
	a, ka := claim("a")
	b, kb := claim("b")
	ea, eb := a.Entry(), b.Entry()
	if same(ka, kb) {
		sym.Reach("same")
		sym.Assert(kit.EqHash(hi(ea), hi(eb)), "the index depends on type, subject and index data only")
	} else {
		sym.Reach("different")
		sym.Assert(!kit.EqHash(hi(ea), hi(eb)), "claims that differ in type, subject or index data have different indexes")
	}
}

// Re-issuing under another nonce collides with the first in a tree.
//
//verif:entry reach=ok
func Reissue() {
	c, _ := claim("a")
	mt, _ := kit.Tree(4)
	sym.Assert(mt.AddEntry(c.Entry()) == nil, "a claim can be inserted")
	h := hi(c.Entry())
	c.Metadata().RevNonce = sym.U32("nonce2")
	switch x := c.(type) {
	case *claims.ClaimBasic:
		copy(x.ValueSlot[:], sym.Bytes("vs2", len(x.ValueSlot)))
	case *claims.ClaimOtherIden:
		copy(x.ValueSlot[:], sym.Bytes("vs2", len(x.ValueSlot)))
	}
	sym.Assert(kit.EqHash(hi(c.Entry()), h), "the index does not depend on the nonce and the value")
	sym.Assert(mt.AddEntry(c.Entry()) == merkletree.ErrEntryIndexAlreadyExists, "the same claim under another nonce collides")
	sym.Reach("ok")
}

// Generic claims: any metadata that is not in the index.
//
//verif:entry reach=ok
func Generic() {
	d := kit.Data("d")
	c := claims.NewClaimGeneric(kit.Entry(d))
	h := *hi(c.Entry())
	sym.Assert(kit.EqHash(&h, kit.Hi(d)), "a generic claim has the index of its entry")
	m := c.Metadata()
	m.RevNonce = sym.U32("nonce")
	if m.Header().Expiration {
		m.Expiration = sym.I64("exp")
	}
	e := c.Entry()
	// the element that holds nonce and expiration has zero top bits in the field
	sym.Assert(kit.EqHash(hi(e), &h), "the index does not depend on nonce and expiration")
	sym.Reach("ok")
}
