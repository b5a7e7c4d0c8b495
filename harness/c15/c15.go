// Package c15 checks parsing of arbitrary entries and texts as claims.
package c15

import (
	"math/big"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func raw() (d merkletree.Data) {
	for i := range d {
		copy(d[i][:], sym.Bytes("d", 32))
	}
	return d
}

// Any bytes as an entry.
//
//verif:entry reach=ok,refused
func Arbitrary() {
	var d merkletree.Data
	if sym.Choose("field", 2) == 0 {
		d = raw()
	} else {
		d = kit.Data("f")
	}
	e := kit.Entry(d)
	var c merkletree.Entrier
	var err error
	sym.Assert(!sym.Catch(func() { c, err = claims.NewClaimFromEntry(e) }), "parsing an entry does not panic")
	sym.Assert(kit.EqData(e.Data, d), "parsing leaves the entry")
	if err != nil {
		sym.Reach("refused")
		return
	}
	if k, ok := c.(*claims.ClaimKeyBabyJub); ok {
		lim := new(big.Int).Lsh(big.NewInt(1), 248)
		sym.Assume(k.Ax.Cmp(lim) >= 0)
		sym.Assume(k.Ay.Cmp(lim) >= 0)
	}
	sym.Assert(!sym.Catch(func() { c.Entry() }), "the parsed claim has an entry")
	sym.Reach("ok")
}

// A generic claim keeps the entry.
//
//verif:entry reach=ok
func Generic() {
	d := raw()
	e := kit.Entry(d)
	var c *claims.ClaimGeneric
	sym.Assert(!sym.Catch(func() { c = claims.NewClaimGeneric(e) }), "making a generic claim does not panic")
	sym.Assert(kit.EqData(c.Entry().Data, d), "a generic claim keeps the data")
	sym.Assert(c.Entry().Equal(kit.Entry(d)), "the entry of a generic claim equals the original")
	c.Metadata().RevNonce = sym.U32("nonce")
	c.Entry()
	sym.Assert(kit.EqData(e.Data, d), "changing the claim leaves the entry it was made from")
	sym.Reach("ok")
}

// Hexadecimal text of a whole entry.
//
//verif:entry reach=ok
func Hex() {
	d := raw()
	var s string
	if sym.Choose("via", 2) == 0 {
		s = claims.ClaimToHex(claims.NewClaimGeneric(kit.Entry(d)))
	} else {
		s = common.HexEncode(kit.Entry(d).Bytes())
	}
	c, err := claims.HexToClaimGeneric(s)
	sym.Assert(err == nil, "the text of a claim is parsed")
	sym.Assert(kit.EqData(c.Entry().Data, d), "a claim from text keeps the data")
	sym.Assert(c.Metadata().RevNonce == claims.GetRevocationNonce(kit.Entry(d)), "a claim from text has the nonce of the data")
	cs, err := claims.HexArrayToClaimGenericArray([]string{s, s})
	sym.Assert(err == nil && len(cs) == 2, "a list of texts is parsed")
	sym.Assert(kit.EqData(cs[0].Entry().Data, d) && kit.EqData(cs[1].Entry().Data, d), "claims from a list keep the data")
	hs := claims.ClaimArrayToHexArray([]merkletree.Entrier{&c, &cs[1]})
	want := common.HexEncode(kit.Entry(d).Bytes())[2:]
	sym.Assert(len(hs) == 2 && sym.EqBytes([]byte(hs[0]), []byte(want)) && sym.EqBytes([]byte(hs[1]), []byte(want)), "the texts of the claims are those of the data")
	sym.Reach("ok")
}

// Any short text.
//
//verif:entry reach=ok,refused
func Text() {
	n := 6
	if sym.Thorough() {
		n = 10
	}
	k := sym.Choose("n", n+1)
	s := string(sym.Bytes("s", k))
	var c claims.ClaimGeneric
	var err error
	sym.Assert(!sym.Catch(func() { c, err = claims.HexToClaimGeneric(s) }), "parsing text does not panic")
	sym.Assert(!sym.Catch(func() { _, _ = claims.HexArrayToClaimGenericArray([]string{s}) }), "parsing a list does not panic")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Assert(!sym.Catch(func() { c.Entry() }), "a claim from text has an entry")
	b, _ := common.HexDecode(s)
	e := c.Entry().Bytes()
	ok := true
	for i := range e {
		w := byte(0)
		if i < len(b) {
			w = b[i]
		}
		ok = sym.And(ok, e[i] == w)
	}
	sym.Assert(ok, "the claim has the bytes of the text")
	sym.Reach("ok")
}
