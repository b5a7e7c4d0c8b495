// Package c17 checks that revoking a claim revokes that claim and no other.
package c17

import (
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/iden"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

var cfg = issuer.Config{MaxLevelsClaimsTree: 6, MaxLevelsRevocationTree: 8, MaxLevelsRootsTree: 6, ConfirmBlocks: 1}

// Leaves of all nonces and versions: read back, distinct positions.
//
//verif:entry reach=same,other
func Leaves() {
	n, v := sym.U32("nonce"), sym.U32("version")
	m, w := sym.U32("nonce2"), sym.U32("version2")
	e, f := claims.NewLeafRevocationsTree(n, v).Entry(), claims.NewLeafRevocationsTree(m, w).Entry()
	l := claims.NewLeafRevocationsTreeFromEntry(e)
	sym.Assert(l.Nonce == n, "a leaf reads back its nonce")
	sym.Assert(l.Version == v, "a leaf reads back its version")
	hi, hv := kit.Hi(e.Data), kit.Hv(e.Data)
	hi2, hv2 := kit.Hi(f.Data), kit.Hv(f.Data)
	sym.Assert(sym.EqBytes(hi[:], hi2[:]) == (n == m), "leaves are at the same position exactly when they have the same nonce")
	sym.Assert(sym.EqBytes(hv[:], hv2[:]) == (v == w), "leaves have the same value exactly when they have the same version")
	if n == m {
		sym.Reach("same")
	} else {
		sym.Reach("other")
	}
	// the claim's own nonce is what its leaf is made of
	c := claims.NewClaimBasic([claims.IndexSlotLen]byte{}, [claims.ValueSlotLen]byte{})
	c.Metadata().RevNonce = n
	sym.Assert(claims.GetRevocationNonce(c.Entry()) == n, "the nonce of a claim is read from its entry")
}

// Leaves added to a tree: the tree holds these and no other.
//
//verif:entry reach=added,again
func Tree() {
	mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 4)
	sym.Assert(err == nil, "a tree opens")
	n := []uint32{sym.U32("n0"), sym.U32("n1"), sym.U32("probe")}
	v := sym.U32("version")
	added := make([]bool, 2)
	for i := 0; i < 2; i++ {
		before := mt.RootKey()
		err := claims.AddLeafRevocationsTree(mt, n[i], v)
		if i == 1 && n[0] == n[1] && added[0] {
			sym.Reach("again")
			sym.Assert(err != nil, "a nonce is revoked once")
		}
		if err != nil {
			sym.Assert(*mt.RootKey() == *before, "a refused leaf changes nothing")
			continue
		}
		added[i] = true
		sym.Reach("added")
	}
	k := n[2]
	want := false
	for i := range added {
		if added[i] && n[i] == k {
			want = true
			break
		}
	}
	hi := kit.Hi(claims.NewLeafRevocationsTree(k, 0).Entry().Data)
	p, err := mt.GenerateProof(hi, nil)
	if err != nil {
		return // for want of levels
	}
	sym.Assert(p.Existence == want, "the tree holds the revoked nonces and no other")
}

// Revocations of an issuer with issued and foreign claims, published and then
// proved to a holder.
//
//verif:entry reach=revoked,refused,valid,invalid
func Issuer() {
	e := iden.New(cfg)
	sym.Assert(e.Load() == nil, "the issuer opens")
	var have []*claims.ClaimBasic
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		c := e.Claim("c" + string(rune('0'+i)))
		e.Place(c, i+1)
		sym.Assert(e.Is.IssueClaim(c) == nil, "a new claim is issued")
		e.N++
		have = append(have, c)
	}
	// a claim never issued, which may share data or nonce with another
	x := e.Claim("x")
	e.Place(x, n+1)
	x.Metadata().RevNonce = have[0].Metadata().RevNonce
	have = append(have, x)
	revoked := make([]bool, n+1)
	for k := 0; k < n; k++ {
		i := sym.Choose("which", n+1)
		// what is given may be a copy with other metadata
		g := claims.NewClaimBasic(have[i].IndexSlot, have[i].ValueSlot)
		g.Metadata().RevNonce = sym.U32("given")
		_, before := e.Is.State()
		err := e.Is.RevokeClaim(g)
		_, after := e.Is.State()
		sym.Assert(*before.ClaimsTreeRoot == *after.ClaimsTreeRoot, "a revocation leaves the claims")
		if i == n || revoked[i] {
			sym.Reach("refused")
			sym.Assert(err != nil, "revoking what was never issued or is already revoked is an error")
			sym.Assert(*before.RevocationsTreeRoot == *after.RevocationsTreeRoot, "a refused revocation changes nothing")
			continue
		}
		sym.Reach("revoked")
		sym.Assert(err == nil, "an issued claim is revoked")
		sym.Assert(*before.RevocationsTreeRoot != *after.RevocationsTreeRoot, "a revocation changes the state")
		revoked[i] = true
		if sym.Choose("restart", 2) == 1 {
			sym.Assert(e.Load() == nil, "the issuer opens again")
		}
	}
	sym.Assert(e.Publish() == nil, "the state is published")
	e.Chain.Mine()
	e.Chain.Mine()
	sym.Assert(e.Is.SyncIdenStatePublic() == nil, "the view is synchronised")
	h, err := holder.Load(e.St, nil, e.Chain, e.Conf, e.Off, e.Off)
	sym.Assert(err == nil, "a holder opens")
	for i := 0; i < n; i++ {
		var ce *proof.CredentialExistence
		ce, err = e.Is.GenCredentialExistence(have[i])
		sym.Assert(err == nil, "a claim of the published state has a credential of existence")
		cv, err := h.HolderGetCredentialValidity(ce)
		if revoked[i] {
			sym.Reach("invalid")
			sym.Assert(err == holder.ErrRevokedClaim && cv == nil, "a revoked claim has no proof of non-revocation")
		} else {
			sym.Reach("valid")
			sym.Assert(err == nil && cv != nil, "a claim that is not revoked has a proof of non-revocation")
		}
	}
}
