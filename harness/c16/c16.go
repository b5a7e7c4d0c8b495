// Package c16 checks that an issuer never gives a nonce twice.
package c16

import (
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/verifharness/iden"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

var cfg = issuer.Config{MaxLevelsClaimsTree: 6, MaxLevelsRevocationTree: 6, MaxLevelsRootsTree: 6, ConfirmBlocks: 1}

// Claims issued in sequence with restarts, repeated claims and failures of the
// storage.
//
//verif:entry reach=issued,refused,fault,restarted
func Sequence() {
	e := iden.New(cfg)
	sym.Assert(e.Load() == nil, "the issuer opens")
	var nonces []uint32
	var have []*claims.ClaimBasic
	nonces = append(nonces, 0) // of the operational key
	for i := 0; i < 3; i++ {
		c := e.Claim("c" + string(rune('0'+i)))
		again := i > 0 && sym.Choose("again", 2) == 1
		if again {
			c = claims.NewClaimBasic(have[i-1].IndexSlot, have[i-1].ValueSlot)
		} else {
			e.Place(c, i+1)
		}
		have = append(have, c)
		fault := i > 0 && sym.Choose("fault", 2) == 1
		if fault {
			e.F.S.Armed, e.F.S.Ops, e.F.S.Fail, e.F.S.Hit = true, 0, sym.Choose("op", 6), false
		}
		c.Metadata().RevNonce = 77
		err := e.Is.IssueClaim(c)
		e.F.S.Armed = false
		if fault && e.F.S.Hit {
			sym.Reach("fault")
		}
		if err == nil {
			sym.Reach("issued")
			n := c.Metadata().RevNonce
			for _, m := range nonces {
				sym.Assert(m != n, "claims have different nonces")
			}
			nonces = append(nonces, n)
		} else {
			sym.Reach("refused")
			sym.Assert(c.Metadata().RevNonce == 77, "a claim that is not issued keeps its metadata")
			sym.Assert(again || fault && e.F.S.Hit, "a new claim is issued")
		}
		if sym.Choose("restart", 2) == 1 {
			sym.Reach("restarted")
			sym.Assert(e.Load() == nil, "the issuer opens again")
		}
	}
}

// Two callers at once.
//
//verif:entry reach=both preempt=2 yields=lock,go,map
func Concurrent() {
	e := iden.New(cfg)
	sym.Assert(e.Load() == nil, "the issuer opens")
	var c [2]*claims.ClaimBasic
	var errs [2]error
	for i := range c {
		c[i] = e.Claim("c" + string(rune('0'+i)))
		e.Place(c[i], i+1)
	}
	for i := range c {
		i := i
		sym.Go(func() { errs[i] = e.Is.IssueClaim(c[i]) })
	}
	sym.Wait()
	sym.Assert(errs[0] == nil, "a new claim is issued")
	sym.Assert(errs[1] == nil, "a new claim is issued")
	a, b := c[0].Metadata().RevNonce, c[1].Metadata().RevNonce
	sym.Assert(a != b, "claims have different nonces")
	sym.Assert(a != 0, "a claim has not the nonce of the operational key")
	sym.Assert(b != 0, "a claim has not the nonce of the operational key")
	sym.Reach("both")
}

// Claims of the genesis state have nonces of their own too.
//
//verif:entry reach=genesis
func Genesis() {
	extra := []claims.Claimer{claims.NewClaimBasic([claims.IndexSlotLen]byte{1}, [claims.ValueSlotLen]byte{}), claims.NewClaimBasic([claims.IndexSlotLen]byte{2}, [claims.ValueSlotLen]byte{})}
	e := iden.NewWith(cfg, extra)
	sym.Assert(e.Load() == nil, "the issuer opens")
	c := e.Claim("c")
	sym.Assume(c.IndexSlot[0] > 2)
	if e.Is.IssueClaim(c) != nil { // for want of levels
		return
	}
	n := []uint32{0, extra[0].Metadata().RevNonce, extra[1].Metadata().RevNonce, c.Metadata().RevNonce}
	for i := range n {
		for j := 0; j < i; j++ {
			sym.Assert(n[i] != n[j], "claims have different nonces")
		}
	}
	sym.Reach("genesis")
}

// The generator from an arbitrary value of its counter.
//
//verif:entry reach=given,exhausted
func Counter() {
	st := db.NewMemoryStorage()
	v := db.NewStorageValue([]byte("counter"))
	start := sym.U32("start")
	tx, err := st.NewTx()
	sym.Assert(err == nil, "a transaction opens")
	v.Set(tx, start)
	sym.Assert(tx.Commit() == nil, "a transaction commits")
	var prev []uint32
	for i := 0; i < 3; i++ {
		// a new generator on the same counter, as after a restart
		u := issuer.NewUniqueNonceGen(v)
		tx, err := st.NewTx()
		sym.Assert(err == nil, "a transaction opens")
		n, err := u.Next(tx)
		if err != nil {
			sym.Reach("exhausted")
			sym.Assert(start >= 0xfffffffd, "the generator is exhausted only at its end")
			continue
		}
		sym.Reach("given")
		sym.Assert(n >= start, "a nonce is none of those before")
		for _, m := range prev {
			sym.Assert(m != n, "nonces are different")
		}
		if sym.Choose("commit", 2) == 1 {
			sym.Assert(tx.Commit() == nil, "a transaction commits")
			prev = append(prev, n)
		} else {
			tx.Close() // the nonce was not used
		}
	}
}
