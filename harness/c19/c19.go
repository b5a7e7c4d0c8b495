// Package c19 checks that a verifier accepts what an issuer hands out.
package c19

import (
	"errors"
	"math/big"
	"time"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-core/verifharness/iden"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	zkmodel "github.com/iden3/go-iden3-core/verifharness/model/zk"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

var cfg = issuer.Config{MaxLevelsClaimsTree: 6, MaxLevelsRevocationTree: 8, MaxLevelsRootsTree: 6, ConfirmBlocks: 1}

type run struct {
	e       *iden.Env
	have    []*claims.ClaimBasic
	known   []bool // issued before the last state the issuer saw confirmed
	revoked []bool // and revoked before the last state on chain
	pend    []bool // revoked since
	h       *holder.Holder
	v       *verifier.Verifier
}

func (r *run) issue() {
	c := r.e.Claim("c" + string(rune('0'+r.e.N)))
	r.e.Place(c, r.e.N+1)
	sym.Assert(r.e.Is.IssueClaim(c) == nil, "a new claim is issued")
	r.e.N++
	r.have, r.known, r.revoked, r.pend = append(r.have, c), append(r.known, false), append(r.revoked, false), append(r.pend, false)
}

func (r *run) revoke(i int) {
	if !r.pend[i] {
		sym.Assert(r.e.Is.RevokeClaim(r.have[i]) == nil, "an issued claim is revoked")
		r.pend[i] = true
	}
}

// publish up to the stage: 0 not at all, 1 sent, 2 on chain, 3 seen there.
func (r *run) publish(stage int) {
	if stage == 0 {
		return
	}
	sym.Assert(r.e.Publish() == nil, "the state is published")
	if stage == 1 {
		return
	}
	r.e.Chain.Mine()
	r.e.Chain.Mine()
	copy(r.revoked, r.pend)
	if stage == 2 {
		return
	}
	sym.Assert(r.e.Is.SyncIdenStatePublic() == nil, "the view is synchronised")
	for i := range r.known {
		r.known[i] = true
	}
}

func (r *run) exist(i int) *proof.CredentialExistence {
	ce, err := r.e.Is.GenCredentialExistence(r.have[i])
	if !r.known[i] {
		sym.Reach("unpublished")
		sym.Assert(err != nil && ce == nil, "a claim that is not in the published state has no credential")
		return nil
	}
	sym.Assert(err == nil, "a claim of the published state has a credential")
	sym.Assert(*ce.Id == *r.e.ID && ce.Claim.Data == r.have[i].Entry().Data && ce.IdenPubUrl == r.e.Off.Url(), "a credential is of the claim and the issuer")
	sym.Assert(r.v.VerifyCredentialExistence(ce) == nil, "a credential of existence is accepted")
	return ce
}

func (r *run) valid(i int, ce *proof.CredentialExistence) {
	cv, err := r.h.HolderGetCredentialValidity(ce)
	if r.revoked[i] {
		sym.Reach("revoked")
		sym.Assert(err != nil && cv == nil, "a revoked claim has no credential of validity")
		return
	}
	sym.Assert(err == nil, "a claim that is not revoked has a credential of validity")
	sym.Assert(r.v.VerifyCredentialValidity(cv, time.Hour) == nil, "a credential of validity is accepted")
	sym.Assert(*cv.IdenStateData.IdenState == *r.e.Chain.Current(r.e.ID), "a credential of validity is of the state on chain")
	sym.Reach("accepted")
}

// up is the root a list of siblings from the leaf's path leads to.
func up(k *merkletree.Hash, hi *merkletree.Hash, sibs []*big.Int) *merkletree.Hash {
	n := len(sibs)
	for n > 0 && sibs[n-1].Sign() == 0 {
		n--
	}
	for l := n - 1; l >= 0; l-- {
		a, b := k, merkletree.NewHashFromBigInt(sibs[l])
		if kit.Bit(hi, l) {
			a, b = b, a
		}
		var err error
		k, err = merkletree.NewNodeMiddle(a, b).Key()
		if err != nil {
			panic(err)
		}
	}
	return k
}

// what the holder gives to the circuit is a proof of what the circuit states
func (r *run) inputs(ce *proof.CredentialExistence) {
	d, err := r.h.HolderGetCredentialValidityData(ce)
	sym.Assert(err == nil, "the data of a credential of validity is found")
	own, err := r.e.Is.GenIdOwnershipGenesisInputs(16)
	sym.Assert(err == nil, "the genesis claim has a proof")
	in, err := r.h.HolderGetCredentialProofInputs(own, ce, d, 8)
	sym.Assert(err == nil, "a credential has inputs for its circuit")
	for i := range ce.Claim.Data {
		sym.Assert(in.Claim[i].Cmp(ce.Claim.Data[i].BigInt()) == 0, "the inputs are of the claim")
	}
	h := merkletree.NewHashFromBigInt
	leaf := func(d merkletree.Data) *merkletree.Hash {
		k, err := merkletree.LeafKey(kit.Hi(d), kit.Hv(d))
		if err != nil {
			panic(err)
		}
		return k
	}
	sym.Assert(*up(leaf(ce.Claim.Data), kit.Hi(ce.Claim.Data), in.CredExistMtp) == *h(in.CredExistClaimsTreeRoot), "the inputs prove the claim")
	root := claims.NewLeafRootsTree(*h(in.CredExistClaimsTreeRoot)).Entry().Data
	sym.Assert(*up(leaf(root), kit.Hi(root), in.CredValidRootMtp) == *h(in.CredValidRootsTreeRoot), "the inputs prove the root of the claim")
	rev := claims.NewLeafRevocationsTree(claims.GetRevocationNonce(ce.Claim), 0xffffffff).Entry().Data
	k := &merkletree.HashZero
	if in.CredValidNotRevMtpNoAux.Sign() == 0 {
		k, err = merkletree.LeafKey(h(in.CredValidNotRevMtpAuxHi), h(in.CredValidNotRevMtpAuxHv))
		sym.Assert(err == nil && *h(in.CredValidNotRevMtpAuxHi) != *kit.Hi(rev), "the auxiliary leaf is another one")
	}
	sym.Assert(*up(k, kit.Hi(rev), in.CredValidNotRevMtp) == *h(in.CredValidRevTreeRoot), "the inputs prove that the claim is not revoked")
	sym.Assert(*h(in.IdenState) == *r.e.Chain.Current(r.e.ID), "the inputs are of the state on chain")
}

// Histories of two publications.
//
//verif:entry reach=accepted,revoked,unpublished,foreign
func Histories() {
	r := &run{e: iden.New(cfg)}
	sym.Assert(r.e.Load() == nil, "the issuer opens")
	var err error
	r.h, err = holder.Load(r.e.St, nil, r.e.Chain, r.e.Conf, r.e.Off, r.e.Off)
	sym.Assert(err == nil, "a holder opens")
	r.v = verifier.NewWithTimeNow(r.e.Chain, func() time.Time { return time.Unix(3000, 0) })
	r.issue()
	if ce, err := r.e.Is.GenCredentialExistence(r.have[0]); ce != nil || err == nil {
		sym.Assert(false, "a claim that is not in the published state has no credential")
	}
	if sym.Choose("two", 2) == 1 {
		r.issue()
	}
	if sym.Choose("early", 2) == 1 {
		r.revoke(0)
	}
	r.publish(3)
	old := r.exist(0)
	// later claims and revocations
	switch sym.Choose("more", 3) {
	case 1:
		r.issue()
	case 2:
		r.revoke(len(r.have) - 1)
	}
	if r.e.N < 3 && sym.Choose("again", 2) == 1 {
		r.issue()
	}
	st := sym.Choose("stage", 4)
	r.publish(st)
	if sym.Choose("restart", 2) == 1 && st != 2 {
		sym.Assert(r.e.Load() == nil, "the issuer opens again")
	}
	for i := range r.have {
		if ce := r.exist(i); ce != nil {
			r.valid(i, ce)
		}
	}
	r.valid(0, old)
	// a claim with the index of an issued one and another value, and one never issued
	w := claims.NewClaimBasic(r.have[0].IndexSlot, [claims.ValueSlotLen]byte{0xff, sym.U8("w")})
	sym.Assume(sym.Or(w.ValueSlot[0] != r.have[0].ValueSlot[0], w.ValueSlot[1] != r.have[0].ValueSlot[1]))
	w.Metadata().RevNonce = r.have[0].Metadata().RevNonce
	x := r.e.Claim("x")
	r.e.Place(x, r.e.N+1)
	for _, c := range []*claims.ClaimBasic{w, x} {
		ce, err := r.e.Is.GenCredentialExistence(c)
		sym.Assert(err != nil && ce == nil, "a claim the issuer has not issued has no credential")
	}
	sym.Reach("foreign")
}

// The inputs of the circuit, for claims of the first and the second state.
//
//verif:entry reach=inputs
func Inputs() {
	r := &run{e: iden.New(cfg)}
	sym.Assert(r.e.Load() == nil, "the issuer opens")
	var err error
	r.h, err = holder.Load(r.e.St, nil, r.e.Chain, r.e.Conf, r.e.Off, r.e.Off)
	sym.Assert(err == nil, "a holder opens")
	r.v = verifier.NewWithTimeNow(r.e.Chain, func() time.Time { return time.Unix(3000, 0) })
	r.issue()
	r.publish(3)
	old := r.exist(0)
	r.issue()
	if sym.Choose("revoke", 2) == 1 {
		r.revoke(1)
	}
	r.publish(3)
	r.inputs(old)
	if !r.revoked[1] {
		r.inputs(r.exist(1))
	}
	sym.Reach("inputs")
}

// ZkCredential has a holder prove a credential in zero knowledge.
//
//verif:entry reach=proved,failed,revoked
func ZkCredential() {
	r := &run{e: iden.New(cfg)}
	sym.Assert(r.e.Load() == nil, "the issuer opens")
	var err error
	r.h, err = holder.Load(r.e.St, nil, r.e.Chain, r.e.Conf, r.e.Off, r.e.Off)
	sym.Assert(err == nil, "a holder opens")
	r.v = verifier.NewWithTimeNow(r.e.Chain, func() time.Time { return time.Unix(3000, 0) })
	r.issue()
	r.publish(3)
	ce := r.exist(0)
	switch sym.Choose("then", 3) {
	case 1:
		r.issue()
		r.publish(3)
	case 2:
		r.revoke(0)
		r.publish(3)
	}
	d, _ := r.h.HolderGetCredentialValidityData(ce)
	zkmodel.NumSignals, zkmodel.Valid, zkmodel.FailProof, zkmodel.FailFiles = 2, true, false, false
	fault := sym.Choose("fault", 5)
	switch fault {
	case 1:
		zkmodel.Valid = false
	case 2:
		zkmodel.FailProof = true
	case 3:
		zkmodel.FailFiles = true
	}
	extra := big.NewInt(7)
	out, err := r.h.HolderGenZkProofCredential(ce, func(in map[string]interface{}) error {
		if fault == 4 {
			return errors.New("inputs")
		}
		_, ok := in["claim"]
		sym.Assert(!ok, "the claim as such is no input")
		in["extra"] = extra
		// what the circuit makes public
		s, ok := in["isIdenState"].(*big.Int)
		sym.Assert(ok, "the state is an input")
		zkmodel.Signals = []*big.Int{s, extra}
		return nil
	}, 16, 8, &zkutils.ZkFiles{})
	if fault > 0 {
		sym.Assert(err != nil && out == nil, "a proof that fails is an error")
		sym.Reach("failed")
		return
	}
	if r.revoked[0] {
		sym.Assert(err != nil && out == nil, "a revoked claim is not proved")
		sym.Reach("revoked")
		return
	}
	sym.Assert(err == nil && *out.IssuerID == *r.e.ID, "a credential is proved")
	own, err := r.e.Is.GenIdOwnershipGenesisInputs(16)
	sym.Assert(err == nil, "the genesis claim has a proof")
	w, err := r.h.HolderGetCredentialProofInputs(own, ce, d, 8)
	sym.Assert(err == nil, "a credential has inputs for its circuit")
	same := func(name string, b *big.Int) {
		v, ok := zkmodel.Inputs[name].(*big.Int)
		sym.Assert(ok && v.Cmp(b) == 0, "the inputs are those of the credential")
	}
	sames := func(name string, b []*big.Int) {
		v, ok := zkmodel.Inputs[name].([]*big.Int)
		sym.Assert(ok && len(v) == len(b), "the inputs are those of the credential")
		for i := range v {
			sym.Assert(v[i].Cmp(b[i]) == 0, "the inputs are those of the credential")
		}
	}
	same("extra", extra)
	same("hoKOpSk", w.PrivateKey)
	sames("hoClaimKOpMtp", w.ClaimKOpMtp)
	same("hoClaimKOpClaimsTreeRoot", w.ClaimKOpClaimsTreeRoot)
	sames("isProofExistMtp", w.CredExistMtp)
	same("isProofExistClaimsTreeRoot", w.CredExistClaimsTreeRoot)
	sames("isProofValidNotRevMtp", w.CredValidNotRevMtp)
	same("isProofValidNotRevMtpNoAux", w.CredValidNotRevMtpNoAux)
	same("isProofValidNotRevMtpAuxHi", w.CredValidNotRevMtpAuxHi)
	same("isProofValidNotRevMtpAuxHv", w.CredValidNotRevMtpAuxHv)
	same("isProofValidClaimsTreeRoot", w.CredValidClaimsTreeRoot)
	same("isProofValidRevTreeRoot", w.CredValidRevTreeRoot)
	same("isProofValidRootsTreeRoot", w.CredValidRootsTreeRoot)
	sames("isProofRootMtp", w.CredValidRootMtp)
	same("isIdenState", w.IdenState)
	sym.Assert(len(zkmodel.Inputs) == 15, "there are no other inputs")
	sym.Assert(r.v.VerifyZkProofCredential(&out.ZkProofOut.Proof, out.ZkProofOut.PubSignals, out.IssuerID, out.IdenStateBlockN, &zkutils.ZkFiles{}, time.Hour) == nil, "a credential that was proved is accepted")
	sym.Reach("proved")
}
