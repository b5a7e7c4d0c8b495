// Package c20 checks that the verifier accepts what the chain backs and
// nothing else.
package c20

import (
	"math/big"
	"time"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-core/verifharness/chain"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	zkmodel "github.com/iden3/go-iden3-core/verifharness/model/zk"
	"github.com/iden3/go-iden3-core/verifharness/sym"
	"github.com/iden3/go-iden3-crypto/constants"
)

func id(name string) *core.ID {
	var i core.ID
	copy(i[:], sym.Bytes(name, 31))
	return &i
}

func elem(name string) *merkletree.Hash {
	h := merkletree.Hash(sym.Elem(name))
	return &h
}

func record(name string) chain.Record {
	return chain.Record{ID: *id(name + ".id"), Block: sym.U64(name + ".block"), Ts: sym.I64(name + ".ts"), State: *elem(name + ".state")}
}

// a history of one or two states
func history() *chain.Fixed {
	c := &chain.Fixed{}
	for i := 0; i < 1+sym.Choose("records", 2); i++ {
		c.Records = append(c.Records, record("chain"+string(rune('0'+i))))
	}
	if len(c.Records) == 2 { // an identity has at most one state at a block
		a, b := c.Records[0], c.Records[1]
		sym.Assume(sym.Or(!sym.EqBytes(a.ID[:], b.ID[:]), a.Block != b.Block))
	}
	return c
}

func onChain(c *chain.Fixed, i *core.ID, d *proof.IdenStateData) bool {
	ok := false
	for k := range c.Records {
		r := &c.Records[k]
		ok = sym.Or(ok, sym.And(sym.EqBytes(r.ID[:], i[:]), r.Block == d.BlockN, r.Ts == d.BlockTs, sym.EqBytes(r.State[:], d.IdenState[:])))
	}
	return ok
}

// path is a proof of arbitrary content of up to n levels, with what it says.
type path struct {
	exist    bool
	sibs     []*merkletree.Hash // one per level, zero when absent
	aux      bool
	auxi, av *merkletree.Hash
	p        *merkletree.Proof
}

func proofOf(name string, n int) path {
	var q path
	d := sym.Choose(name+".depth", n+1)
	var bs [32]byte
	kind := sym.Choose(name+".kind", 3)
	q.exist = kind == 0
	if !q.exist {
		bs[0] |= 1
	}
	if kind == 2 {
		bs[0] |= 2
		q.aux = true
	}
	bs[1] = byte(d)
	b := bs[:]
	for i := 0; i < d; i++ {
		z := merkletree.HashZero
		q.sibs = append(q.sibs, &z)
		if sym.Choose(name+".sibling", 2) == 1 {
			b[len(bs)-1-i/8] |= 1 << uint(i%8)
			q.sibs[i] = elem(name + ".sib")
			b = append(b, q.sibs[i][:]...)
		}
	}
	if q.aux {
		q.auxi, q.av = elem(name+".auxi"), elem(name+".auxv")
		b = append(b, q.auxi[:]...)
		b = append(b, q.av[:]...)
	}
	p, err := merkletree.NewProofFromBytes(b)
	if err != nil {
		panic(err)
	}
	q.p = p
	return q
}

// root is the root the path leads to, by its own computation.
func (q path) root(hi, hv *merkletree.Hash) (*merkletree.Hash, bool) {
	k := &merkletree.HashZero
	var err error
	if q.exist {
		k, err = merkletree.LeafKey(hi, hv)
	} else if q.aux {
		if sym.EqBytes(q.auxi[:], hi[:]) {
			return nil, false
		}
		k, err = merkletree.LeafKey(q.auxi, q.av)
	}
	if err != nil {
		return nil, false
	}
	for l := len(q.sibs) - 1; l >= 0; l-- {
		a, b := k, q.sibs[l]
		if kit.Bit(hi, l) {
			a, b = b, a
		}
		k, err = merkletree.NewNodeMiddle(a, b).Key()
		if err != nil {
			return nil, false
		}
	}
	return k, true
}

func existence(name string, n int) (*proof.CredentialExistence, path) {
	q := proofOf(name+".mtp", n)
	return &proof.CredentialExistence{
		Id:                  id(name + ".id"),
		IdenStateData:       proof.IdenStateData{BlockN: sym.U64(name + ".block"), BlockTs: sym.I64(name + ".ts"), IdenState: elem(name + ".state")},
		MtpClaim:            q.p,
		Claim:               kit.Entry(kit.Data2(name)),
		RevocationsTreeRoot: elem(name + ".rev"),
		RootsTreeRoot:       elem(name + ".roots"),
	}, q
}

// existsSpec is what an accepted credential of existence must satisfy.
func existsSpec(c *chain.Fixed, ce *proof.CredentialExistence, q path) bool {
	if !q.exist {
		return false
	}
	r, ok := q.root(kit.Hi(ce.Claim.Data), kit.Hv(ce.Claim.Data))
	if !ok {
		return false
	}
	s := core.IdenState(r, ce.RevocationsTreeRoot, ce.RootsTreeRoot)
	return sym.And(sym.EqBytes(s[:], ce.IdenStateData.IdenState[:]), onChain(c, ce.Id, &ce.IdenStateData))
}

// Credentials of existence of arbitrary content.
//
//verif:entry reach=accepted,refused
func Existence() {
	c := history()
	n := 2
	if sym.Thorough() {
		n = 3
	}
	ce, q := existence("cred", n)
	want := existsSpec(c, ce, q)
	err := verifier.New(c).VerifyCredentialExistence(ce)
	if err == nil {
		sym.Reach("accepted")
		sym.Assert(want, "an accepted credential is backed by the chain")
	} else {
		sym.Reach("refused")
		sym.Assert(!want, "a credential the chain backs is accepted")
	}
}

// Credentials of validity of arbitrary content; expiry and freshness are
// satisfied (C21).
//
//verif:entry reach=accepted,refused
func Validity() {
	c := history()
	n := 0
	if sym.Thorough() {
		n = 1
	}
	ce, q := existence("cred", n)
	q2 := proofOf("notrev", 1)
	cv := &proof.CredentialValidity{
		CredentialExistence: *ce,
		IdenStateData:       proof.IdenStateData{BlockN: sym.U64("v.block"), BlockTs: sym.I64("v.ts"), IdenState: elem("v.state")},
		MtpNotNonce:         q2.p,
		ClaimsTreeRoot:      elem("v.claims"),
		RootsTreeRoot:       elem("v.roots"),
	}
	var nonce [4]byte
	copy(nonce[:], sym.Bytes("nonce", 4))
	ce.Claim = &merkletree.Entry{Data: ce.Claim.Data}
	copy(ce.Claim.Data[merkletree.IndexLen][:4], nonce[:])
	cv.CredentialExistence.Claim = ce.Claim
	want := existsSpec(c, ce, q)
	if q2.exist {
		want = false
	} else {
		var l merkletree.Data
		copy(l[0][:4], nonce[:])
		copy(l[4][:4], []byte{0xff, 0xff, 0xff, 0xff})
		r, ok := q2.root(kit.Hi(l), kit.Hv(l))
		if !ok {
			want = false
		} else {
			s := core.IdenState(cv.ClaimsTreeRoot, r, cv.RootsTreeRoot)
			want = sym.And(want, sym.EqBytes(s[:], cv.IdenStateData.IdenState[:]), onChain(c, ce.Id, &cv.IdenStateData))
		}
	}
	sym.Assume(sym.And(cv.IdenStateData.BlockTs >= 0, cv.IdenStateData.BlockTs < 1<<40))
	v := verifier.NewWithTimeNow(c, func() time.Time { return time.Unix(0, 0) })
	err := v.VerifyCredentialValidity(cv, time.Second)
	if err == nil {
		sym.Reach("accepted")
		sym.Assert(want, "an accepted credential is backed by the chain")
	} else {
		sym.Reach("refused")
		sym.Assert(!want, "a credential the chain backs is accepted")
	}
}

// Credentials that lack parts, as parsed from JSON without them, or with
// numbers outside the field.
//
//verif:entry reach=refused
func Malformed() {
	c := history()
	ce, _ := existence("cred", 0)
	cv := &proof.CredentialValidity{
		CredentialExistence: *ce,
		IdenStateData:       proof.IdenStateData{BlockN: sym.U64("v.block"), IdenState: elem("v.state")},
		MtpNotNonce:         proofOf("notrev", 0).p,
		ClaimsTreeRoot:      elem("v.claims"),
		RootsTreeRoot:       elem("v.roots"),
	}
	big := func() *merkletree.Hash {
		var h merkletree.Hash
		copy(h[:], sym.Bytes("big", 32))
		sym.Assume(h[31] >= 0x80)
		return &h
	}
	switch sym.Choose("what", 14) {
	case 0:
		cv.CredentialExistence.Id = nil
	case 1:
		cv.CredentialExistence.IdenStateData.IdenState = nil
	case 2:
		cv.CredentialExistence.MtpClaim = nil
	case 3:
		cv.CredentialExistence.Claim = nil
	case 4:
		cv.CredentialExistence.RevocationsTreeRoot = nil
	case 5:
		cv.CredentialExistence.RootsTreeRoot = nil
	case 6:
		cv.IdenStateData.IdenState = nil
	case 7:
		cv.MtpNotNonce = nil
	case 8:
		cv.ClaimsTreeRoot = nil
	case 9:
		cv.RootsTreeRoot = nil
	case 10:
		cv.CredentialExistence.RevocationsTreeRoot = big()
	case 11:
		cv.CredentialExistence.RootsTreeRoot = big()
	case 12:
		cv.ClaimsTreeRoot = big()
	case 13:
		cv.RootsTreeRoot = big()
	}
	v := verifier.NewWithTimeNow(c, func() time.Time { return time.Unix(0, 0) })
	err := v.VerifyCredentialValidity(cv, time.Second)
	sym.Assert(err != nil, "a malformed credential is refused")
	e := cv.CredentialExistence
	if e.Id == nil || e.IdenStateData.IdenState == nil || e.MtpClaim == nil || e.Claim == nil || e.RevocationsTreeRoot == nil || e.RootsTreeRoot == nil {
		err = v.VerifyCredentialExistence(&e)
		sym.Assert(err != nil, "a malformed credential is refused")
	}
	sym.Reach("refused")
}

// Zero-knowledge credentials with arbitrary signals.
//
//verif:entry reach=accepted,refused
func ZkProof() {
	c := history()
	zkmodel.Valid = sym.Bool("valid")
	zkmodel.NumSignals = 1 + sym.Choose("circuit", 2)
	n := sym.Choose("signals", 3)
	var sig []*big.Int
	for i := 0; i < n; i++ {
		sig = append(sig, sym.Big("signal", 256))
	}
	i, b := id("id"), sym.U64("block")
	v := verifier.NewWithTimeNow(c, func() time.Time { return time.Unix(0, 0) })
	for k := range c.Records {
		sym.Assume(sym.And(c.Records[k].Ts >= 0, c.Records[k].Ts < 1<<40))
	}
	err := v.VerifyZkProofCredential(&zktypes.Proof{}, sig, i, b, &zkutils.ZkFiles{}, time.Second)
	want := false
	for _, b := range sig {
		zkmodel.Valid = zkmodel.Valid && b.Cmp(constants.Q) < 0
	}
	if n == zkmodel.NumSignals {
		s := merkletree.NewHashFromBigInt(sig[0])
		for k := range c.Records {
			r := &c.Records[k]
			want = sym.Or(want, sym.And(zkmodel.Valid, sym.EqBytes(r.ID[:], i[:]), r.Block == b, sym.EqBytes(r.State[:], s[:])))
		}
	}
	if err == nil {
		sym.Reach("accepted")
		sym.Assert(want, "an accepted proof is valid and of a state on the chain")
	} else {
		sym.Reach("refused")
		sym.Assert(!want, "a valid proof of a state on the chain is accepted")
	}
}

var _ = claims.GetRevocationNonce
