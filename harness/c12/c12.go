// Package c12 checks that claims survive encoding into an entry.
package c12

import (
	"math/big"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

// through stores the claim as an entry and parses a copy of it.
func through(c merkletree.Entrier) (merkletree.Entrier, *merkletree.Entry) {
	e := c.Entry()
	d := e.Data
	sym.Assert(merkletree.CheckEntryInField(*e), "the entry consists of field elements")
	sym.Assert(kit.EqData(c.Entry().Data, d), "the entry is a function of the claim")
	var raw [merkletree.ElemBytesLen * merkletree.DataLen]byte
	copy(raw[:], e.Bytes())
	p, err := claims.NewClaimFromEntry(kit.Entry(*merkletree.NewDataFromBytes(raw)))
	sym.Assert(err == nil, "the entry of a claim parses")
	sym.Assert(kit.EqData(e.Data, d), "parsing leaves the entry")
	return p, kit.Entry(d)
}

func sameMeta(a, b *claims.Metadata) bool {
	if a.Header() != b.Header() {
		return false
	}
	if (a.Subject == nil) != (b.Subject == nil) {
		return false
	}
	if a.Subject != nil && !sym.EqBytes(a.Subject[:], b.Subject[:]) {
		return false
	}
	return sym.And(a.Expiration == b.Expiration, a.Version == b.Version, a.RevNonce == b.RevNonce)
}

//verif:entry reach=ok
func Basic() {
	var is [claims.IndexSlotLen]byte
	var vs [claims.ValueSlotLen]byte
	copy(is[:], sym.Bytes("is", len(is)))
	copy(vs[:], sym.Bytes("vs", len(vs)))
	c := claims.NewClaimBasic(is, vs)
	c.Metadata().RevNonce = sym.U32("nonce")
	p, e := through(c)
	q, ok := p.(*claims.ClaimBasic)
	sym.Assert(ok, "a basic claim parses as a basic claim")
	sym.Assert(sym.EqBytes(q.IndexSlot[:], is[:]), "the index data survives")
	sym.Assert(sym.EqBytes(q.ValueSlot[:], vs[:]), "the value data survives")
	sym.Assert(sameMeta(q.Metadata(), c.Metadata()), "the metadata survives")
	sym.Assert(kit.EqData(q.Entry().Data, e.Data), "the parsed claim has the same entry")
	sym.Reach("ok")
}

//verif:entry reach=ok
func OtherIden() {
	var is [claims.IndexSubjectSlotLen]byte
	var vs [claims.ValueSlotLen]byte
	var id core.ID
	copy(is[:], sym.Bytes("is", len(is)))
	copy(vs[:], sym.Bytes("vs", len(vs)))
	copy(id[:], sym.Bytes("id", len(id)))
	id0 := id
	c := claims.NewClaimOtherIden(&id, is, vs)
	c.Metadata().RevNonce = sym.U32("nonce")
	p, e := through(c)
	q, ok := p.(*claims.ClaimOtherIden)
	sym.Assert(ok, "a claim about another identity parses as one")
	sym.Assert(sym.EqBytes(q.IndexSlot[:], is[:]), "the index data survives")
	sym.Assert(sym.EqBytes(q.ValueSlot[:], vs[:]), "the value data survives")
	sym.Assert(sameMeta(q.Metadata(), c.Metadata()), "the metadata survives")
	sym.Assert(q.Metadata().Subject != nil && sym.EqBytes(q.Metadata().Subject[:], id0[:]), "the subject survives")
	sym.Assert(kit.EqData(q.Entry().Data, e.Data), "the parsed claim has the same entry")
	sym.Reach("ok")
}

// One coordinate ranges over all lengths, the other over the full-length ones.
//
//verif:entry reach=ok
func Key() {
	x, y := sym.Field("x"), sym.Field("y")
	lim := new(big.Int).Lsh(big.NewInt(1), 248)
	full := x
	if sym.Choose("short", 2) == 0 {
		full = y
	}
	sym.Assume(full.Cmp(lim) >= 0)
	kt := claims.BabyJubKeyType(sym.U64("kt"))
	c := claims.NewClaimKeyBabyJub(&babyjub.PublicKey{X: x, Y: y}, kt)
	c.Metadata().RevNonce = sym.U32("nonce")
	p, e := through(c)
	q, ok := p.(*claims.ClaimKeyBabyJub)
	sym.Assert(ok, "a key claim parses as a key claim")
	sym.Assert(q.KeyType == kt, "the key type survives")
	sym.Assert(q.Ax.Cmp(x) == 0, "the x coordinate survives")
	sym.Assert(q.Ay.Cmp(y) == 0, "the y coordinate survives")
	sym.Assert(sameMeta(q.Metadata(), c.Metadata()), "the metadata survives")
	sym.Assert(kit.EqData(q.Entry().Data, e.Data), "the parsed claim has the same entry")
	sym.Reach("ok")
}

// Leaves of the roots and revocations trees.
//
//verif:entry reach=ok
func Leaves() {
	r := merkletree.Hash(sym.Elem("root"))
	l := claims.NewLeafRootsTree(r)
	e := l.Entry()
	sym.Assert(merkletree.CheckEntryInField(*e), "a root leaf consists of field elements")
	sym.Assert(kit.EqHash(&claims.NewLeafRootsTreeFromEntry(kit.Entry(e.Data)).Root, &r), "the root survives")
	n, v := sym.U32("nonce"), sym.U32("version")
	f := claims.NewLeafRevocationsTree(n, v).Entry()
	sym.Assert(merkletree.CheckEntryInField(*f), "a revocation leaf consists of field elements")
	g := claims.NewLeafRevocationsTreeFromEntry(kit.Entry(f.Data))
	sym.Assert(g.Nonce == n, "the nonce survives")
	sym.Assert(g.Version == v, "the version survives")
	sym.Reach("ok")
}

// An entry parses as the type it says it has and as nothing else.
//
//verif:entry reach=basic,key,other,refused,field
func Types() {
	d := kit.Data("d")
	if sym.Choose("raw", 2) == 1 {
		i := sym.Choose("i", 8)
		copy(d[i][:], sym.Bytes("raw", 32))
	}
	in := merkletree.CheckEntryInField(*kit.Entry(d))
	p, err := claims.NewClaimFromEntry(kit.Entry(d))
	if !in {
		sym.Reach("field")
		sym.Assert(err != nil, "an entry outside the field is refused")
		return
	}
	var t claims.ClaimType
	copy(t[:], d[0][:])
	if err != nil {
		sym.Reach("refused")
		sym.Assert(t != claims.ClaimTypeBasic && t != claims.ClaimTypeKeyBabyJub && t != claims.ClaimTypeOtherIden, "the entry of a known type is accepted")
		return
	}
	m := p.(claims.Claimer).Metadata()
	sym.Assert(m.Type() == t, "the claim has the type of the entry")
	sym.Assert(m.RevNonce == claims.GetRevocationNonce(kit.Entry(d)), "the claim has the nonce of the entry")
	switch p.(type) {
	case *claims.ClaimBasic:
		sym.Reach("basic")
		sym.Assert(t == claims.ClaimTypeBasic, "only a basic claim parses as one")
	case *claims.ClaimKeyBabyJub:
		sym.Reach("key")
		sym.Assert(t == claims.ClaimTypeKeyBabyJub, "only a key claim parses as one")
	case *claims.ClaimOtherIden:
		sym.Reach("other")
		sym.Assert(t == claims.ClaimTypeOtherIden, "only a claim about another identity parses as one")
	default:
		sym.Assert(false, "a parsed claim has a known type")
	}
}
