// Package c21 checks the verifier's limits in time: expiration of claims and
// freshness of states.
package c21

import (
	"math/big"
	"time"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-core/verifharness/chain"
	zkmodel "github.com/iden3/go-iden3-core/verifharness/model/zk"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func elem(name string) *merkletree.Hash {
	h := merkletree.Hash(sym.Elem(name))
	return &h
}

const e9 = 1000000000

func rng(name string, max int64) int64 { return int64(sym.Range(name, 0, int(max))) }

// now is a moment between 1970 and 2106, and freshness up to 136 years.  fresh
// tells whether a state of the time is.
func moment() (now time.Time, freshness time.Duration, fresh func(ts int64) bool, expired func(x int64) bool) {
	s, n := rng("now.s", 1<<32), rng("now.ns", e9-1)
	fs, fn := rng("fresh.s", 1<<32), rng("fresh.ns", e9-1)
	fresh = func(ts int64) bool {
		d := s - fs - ts
		return sym.Or(d < 0, sym.And(d == 0, n < fn))
	}
	expired = func(x int64) bool { return sym.Or(x < s, sym.And(x == s, n > 0)) }
	return time.Unix(s, n), time.Duration(fs*e9 + fn), fresh, expired
}

func proofBytes(exist bool) *merkletree.Proof {
	var b [32]byte
	if !exist {
		b[0] = 1
	}
	p, err := merkletree.NewProofFromBytes(b[:])
	if err != nil {
		panic(err)
	}
	return p
}

// credential is one of validity that holds as far as roots and the chain go,
// with all that matters for time arbitrary.  Its state of validity is the
// current one of the chain or an older one.
func credential(c *chain.Fixed, e *merkletree.Entry, last bool) *proof.CredentialValidity {
	var id core.ID
	id[0] = 1
	hi, err := e.HIndex()
	if err != nil {
		panic(err)
	}
	hv, err := e.HValue()
	if err != nil {
		panic(err)
	}
	leaf, err := merkletree.LeafKey(hi, hv)
	if err != nil {
		panic(err)
	}
	zero := merkletree.HashZero
	ror := *elem("ror")
	s1 := core.IdenState(leaf, &zero, &ror)
	ts1, ts2 := rng("ts1", 1<<32), rng("ts2", 1<<32)
	sym.Assume(sym.And(ts1 >= 0, ts1 <= ts2, ts2 < 1<<32))
	ror2 := ror
	clr2 := *leaf
	same := sym.Choose("same", 2) == 1 // both proofs of the same state
	s2 := s1
	if !same {
		ror2, clr2 = *elem("ror2"), *elem("clr2")
		s2 = core.IdenState(&clr2, &zero, &ror2)
		sym.Assume(!sym.EqBytes(s1[:], s2[:]))
	} else {
		sym.Assume(ts1 == ts2)
	}
	b2 := uint64(2)
	if same {
		b2 = 1
	}
	c.Records = append(c.Records, chain.Record{ID: id, Block: 1, Ts: ts1, State: *s1})
	if !same {
		c.Records = append(c.Records, chain.Record{ID: id, Block: 2, Ts: ts2, State: *s2})
	}
	if !last {
		s3 := *elem("s3")
		ts3 := rng("ts3", 1<<32)
		sym.Assume(sym.And(!sym.EqBytes(s3[:], s2[:]), ts3 >= ts2, ts3 < 1<<32))
		c.Records = append(c.Records, chain.Record{ID: id, Block: 3, Ts: ts3, State: s3})
	}
	return &proof.CredentialValidity{
		CredentialExistence: proof.CredentialExistence{
			Id:                  &id,
			IdenStateData:       proof.IdenStateData{BlockN: 1, BlockTs: ts1, IdenState: s1},
			MtpClaim:            proofBytes(true),
			Claim:               e,
			RevocationsTreeRoot: &zero,
			RootsTreeRoot:       &ror,
		},
		IdenStateData:  proof.IdenStateData{BlockN: b2, BlockTs: ts2, IdenState: s2},
		MtpNotNonce:    proofBytes(false),
		ClaimsTreeRoot: &clr2,
		RootsTreeRoot:  &ror2,
	}
}

// A credential of validity is accepted exactly if its claim has not expired
// and its state is the current one or fresh.
//
//verif:entry reach=accepted,expired,old,never
func Validity() {
	expires := sym.Choose("expires", 2) == 1
	m := claims.NewMetadata(claims.ClaimHeader{Expiration: expires, Version: sym.Choose("version", 2) == 1})
	m.RevNonce = 7
	m.Version = 3
	x := sym.I64("expiration")
	m.Expiration = x
	e := &merkletree.Entry{}
	m.Marshal(e)
	if !expires {
		sym.Reach("never")
	}
	last := sym.Choose("last", 2) == 1
	c := &chain.Fixed{}
	cv := credential(c, e, last)
	tm, f, isFresh, isExpired := moment()
	expired := sym.And(expires, isExpired(x))
	fresh := sym.Or(last, isFresh(cv.IdenStateData.BlockTs))
	v := verifier.NewWithTimeNow(c, func() time.Time { return tm })
	err := v.VerifyCredentialValidity(cv, f)
	if err == nil {
		sym.Reach("accepted")
		sym.Assert(!expired, "an expired claim is not accepted")
		sym.Assert(fresh, "a state that is neither fresh nor current is not accepted")
		return
	}
	sym.Assert(sym.Or(expired, !fresh), "a claim in force with a fresh or current state is accepted")
	if err == verifier.ErrClaimExpired {
		sym.Reach("expired")
		sym.Assert(expired, "a claim in force is not said to have expired")
	} else {
		sym.Reach("old")
	}
}

// Times and blocks that the credential tells and the chain does not are of no
// use: a state is as old as the chain says.
//
//verif:entry reach=accepted,refused
func Told() {
	last := sym.Choose("last", 2) == 1
	c := &chain.Fixed{}
	cv := credential(c, &merkletree.Entry{}, last)
	tm, f, isFresh, _ := moment()
	fresh := sym.Or(last, isFresh(cv.IdenStateData.BlockTs))
	cv.IdenStateData.BlockTs = rng("told", 1<<32)
	if sym.Choose("block", 2) == 1 {
		cv.IdenStateData.BlockN = uint64(rng("told.n", 4))
	}
	if sym.Choose("existence", 2) == 1 {
		cv.CredentialExistence.IdenStateData.BlockTs = rng("told.e", 1<<32)
	}
	v := verifier.NewWithTimeNow(c, func() time.Time { return tm })
	if v.VerifyCredentialValidity(cv, f) == nil {
		sym.Reach("accepted")
		sym.Assert(fresh, "a state that is neither fresh nor current is not accepted")
	} else {
		sym.Reach("refused")
	}
}

// A zero-knowledge credential is accepted exactly if its state is the current
// one or fresh.
//
//verif:entry reach=accepted,old
func ZkProof() {
	c := &chain.Fixed{}
	var id core.ID
	id[0] = 1
	s1, s2 := *elem("s1"), *elem("s2")
	ts1, ts2 := rng("ts1", 1<<32), rng("ts2", 1<<32)
	sym.Assume(sym.And(ts1 >= 0, ts1 <= ts2, ts2 < 1<<32, !sym.EqBytes(s1[:], s2[:])))
	c.Records = []chain.Record{{ID: id, Block: 1, Ts: ts1, State: s1}}
	last := sym.Choose("last", 2) == 1
	if !last {
		c.Records = append(c.Records, chain.Record{ID: id, Block: 2, Ts: ts2, State: s2})
	}
	tm, f, isFresh, _ := moment()
	fresh := sym.Or(last, isFresh(ts1))
	v := verifier.NewWithTimeNow(c, func() time.Time { return tm })
	zkmodel.Valid, zkmodel.NumSignals = true, 1
	sig := []*big.Int{s1.BigInt()}
	err := v.VerifyZkProofCredential(&zktypes.Proof{}, sig, &id, 1, &zkutils.ZkFiles{}, f)
	if err == nil {
		sym.Reach("accepted")
		sym.Assert(fresh, "a state that is neither fresh nor current is not accepted")
	} else {
		sym.Reach("old")
		sym.Assert(!fresh, "a fresh or current state is accepted")
	}
}

// A verifier of New follows the clock.
//
//verif:entry reach=accepted,refused
func Clock() {
	s, t := rng("s", 1<<32), rng("t", 1<<32)
	sym.Assume(sym.And(t >= 1000000000, s >= t))
	sym.SetNow(t)
	c := &chain.Fixed{}
	v := verifier.New(c)
	m := claims.NewMetadata(claims.ClaimHeader{Expiration: true})
	x := rng("expiration", 1<<32)
	m.Expiration = x
	e := &merkletree.Entry{}
	m.Marshal(e)
	cv := credential(c, e, true)
	if sym.Choose("before", 2) == 1 {
		_ = v.VerifyCredentialValidity(cv, time.Second)
	}
	sym.SetNow(s)
	err := v.VerifyCredentialValidity(cv, time.Second)
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
	sym.Assert((err == nil) == (x >= s), "a claim expires when the clock says so")
}
