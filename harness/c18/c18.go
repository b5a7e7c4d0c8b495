// Package c18 checks that the state an issuer publishes follows the chain.
package c18

import (
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/iden"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

var cfg = issuer.Config{MaxLevelsClaimsTree: 6, MaxLevelsRevocationTree: 6, MaxLevelsRootsTree: 6, ConfirmBlocks: 1}

type run struct {
	e     *iden.Env
	have  []*claims.ClaimBasic
	revd  int
	dirty bool // claims were issued or revoked since the last recorded state
	odd   bool // a failure happened
}

func start() *run {
	r := &run{e: iden.New(cfg)}
	sym.Assert(r.e.Load() == nil, "the issuer opens")
	return r
}

func zero(h *merkletree.Hash) bool { return h == nil || *h == merkletree.HashZero }

// the view is what the chain holds, or held and still records
func (r *run) check() {
	d := r.e.Is.StateDataOnChain()
	if zero(d.IdenState) {
		return
	}
	ok := false
	for i := range r.e.Chain.Records {
		c := &r.e.Chain.Records[i]
		ok = ok || c.Block == d.BlockN && c.Ts == d.BlockTs && c.State == *d.IdenState
	}
	sym.Assert(ok, "the confirmed state is one the chain holds")
}

func (r *run) issue() {
	c := r.e.Claim("c" + string(rune('0'+r.e.N)))
	r.e.Place(c, r.e.N+1)
	sym.Assert(r.e.Is.IssueClaim(c) == nil, "a new claim is issued")
	r.e.N++
	r.have = append(r.have, c)
	r.dirty = true
}

func (r *run) revoke() {
	c := r.have[r.revd]
	sym.Assert(r.e.Is.RevokeClaim(c) == nil, "a claim is revoked")
	r.revd++
	r.dirty = true
}

// publish without failures
func (r *run) publish() {
	p, sent := r.e.Is.IdenStatePending()
	n := len(r.e.Chain.Sent)
	err := r.e.Publish()
	m := len(r.e.Chain.Sent)
	switch {
	case !zero(p) && sent:
		sym.Assert(err == issuer.ErrIdenStatePendingNotNil, "publishing while a state is pending is refused")
		sym.Assert(n == m, "no state is published while another is pending")
	case zero(p) && !r.dirty:
		sym.Assert(err == nil, "publishing an unchanged state succeeds")
		sym.Assert(n == m, "an unchanged state is not published")
	default:
		if err != nil {
			// a pending state that reached the chain without notice
			sym.Assert(!zero(p) && *r.e.Chain.Current(r.e.ID) == *p && n == m, "a changed state is published")
			r.e.Chain.Reject = 0
			break
		}
		sym.Assert(m == n+1, "a changed state is sent")
		q, s2 := r.e.Is.IdenStatePending()
		sym.Assert(s2 && *q == r.e.Chain.Sent[n].State, "the state sent is pending")
		if zero(p) {
			st, _ := r.e.Is.State()
			sym.Assert(*q == *st, "the state sent is the current one")
			r.dirty = false
		} else {
			sym.Assert(*q == *p, "a pending state is sent again")
		}
	}
	r.check()
}

func (r *run) sync() {
	err := r.e.Is.SyncIdenStatePublic()
	sym.Assert(err == nil, "the view is synchronised")
	r.check()
}

func (r *run) reload() {
	sym.Assert(r.e.Load() == nil, "the issuer opens again")
	r.check()
}

// op does one of the operations without failures.
func (r *run) op(max int) {
	switch sym.Choose("op", 6) {
	case 0:
		r.publish()
	case 1:
		r.e.Chain.Mine()
	case 2:
		r.sync()
	case 3:
		r.reload()
	case 4:
		if r.e.N >= max {
			sym.Assume(false)
		}
		r.issue()
	case 5:
		if r.revd >= len(r.have) {
			sym.Assume(false)
		}
		r.revoke()
	}
}

// finish brings the issuer in step with the chain.
func (r *run) finish() {
	settle := func() {
		for i := 0; i < 2; i++ {
			r.e.Chain.Mine()
			r.e.Chain.Mine()
			r.sync()
			p, sent := r.e.Is.IdenStatePending()
			if zero(p) {
				break
			}
			sym.Assert(!sent, "a mined state does not stay pending")
			r.publish()
		}
		p, _ := r.e.Is.IdenStatePending()
		sym.Assert(zero(p), "no state stays pending")
		sym.Assert(*r.e.Is.StateDataOnChain().IdenState == *r.e.Chain.Current(r.e.ID), "the view is the state of the chain")
	}
	settle()
	r.issue()
	r.dirty = true
	r.publish()
	settle()
	st, _ := r.e.Is.State()
	sym.Assert(*st == *r.e.Chain.Current(r.e.ID), "the last state reaches the chain")
	sym.Assert(r.e.Chain.Reject == 0, "the contract is given only what it takes")
	for _, c := range r.have {
		ce, err := r.e.Is.GenCredentialExistence(c)
		sym.Assert(err == nil && ce != nil, "the state on chain opens as the trees it was made from")
	}
	_, err := r.e.Off.GetPublicData("", r.e.ID, st)
	sym.Assert(err == nil, "the public data of the last state opens")
	sym.Reach("finished")
}

// Sequences without failures.
//
//verif:entry reach=finished
func Clean() {
	r := start()
	r.issue()
	r.publish()
	n := 4
	if sym.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		r.op(2)
	}
	r.finish()
}

// A failure while publishing.
//
//verif:entry reach=finished,hit
func Publishing() {
	r := start()
	r.issue()
	if sym.Choose("first", 2) == 1 {
		r.publish()
		r.e.Chain.Mine()
		r.e.Chain.Mine()
		r.sync()
		r.issue()
	}
	switch k := sym.Choose("fault", 4+faults); k {
	case 0:
		r.e.Chain.Errs["send"] = true
	case 1:
		r.e.Chain.Errs["lost"] = true
	case 2:
		r.e.Off.Fail = true
	case 3:
		r.e.Chain.Errs["fail"] = true
	default:
		r.e.F.S.Armed, r.e.F.S.Ops, r.e.F.S.Fail, r.e.F.S.Hit = true, 0, k-4, false
	}
	err := r.e.Publish()
	if err != nil {
		sym.Reach("hit")
	}
	if r.e.F.S.Armed && !r.e.F.S.Hit {
		sym.Assume(false) // there are no more operations to fail
	}
	r.e.F.S.Armed = false
	if r.e.Chain.Errs["fail"] {
		r.e.Chain.Mine()
	}
	r.e.Chain.Errs, r.e.Off.Fail = map[string]bool{}, false
	p, _ := r.e.Is.IdenStatePending()
	r.dirty = zero(p)
	r.check()
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		r.op(3)
	}
	r.finish()
}

const faults = 20

// A failure while synchronising or opening.
//
//verif:entry reach=finished,hit
func Syncing() {
	r := start()
	r.issue()
	r.publish()
	r.e.Chain.Mine()
	r.e.Chain.Mine()
	switch k := sym.Choose("fault", 2+faults); k {
	case 0:
		r.e.Chain.Errs["get"] = true
	case 1:
		r.e.Chain.Errs["confirm"] = true
	default:
		r.e.F.S.Armed, r.e.F.S.Ops, r.e.F.S.Fail, r.e.F.S.Hit = true, 0, k-2, false
	}
	var err error
	load := sym.Choose("load", 2) == 1
	if load {
		err = r.e.Load()
	} else {
		err = r.e.Is.SyncIdenStatePublic()
	}
	if err != nil {
		sym.Reach("hit")
	}
	if r.e.F.S.Armed && !r.e.F.S.Hit {
		sym.Assume(false) // there are no more operations to fail
	}
	r.e.F.S.Armed = false
	r.e.Chain.Errs = map[string]bool{}
	r.check()
	n := 3
	if load { // a failed opening changes nothing
		n = 1
	}
	if sym.Thorough() {
		n++
	}
	for i := 0; i < n; i++ {
		r.op(3)
	}
	r.finish()
}

// An issuer restricted to its genesis.
//
//verif:entry reach=refused
func GenesisOnly() {
	c := cfg
	c.GenesisOnly = true
	e := iden.New(c)
	sym.Assert(e.Load() == nil, "the issuer opens")
	b := e.Claim("c")
	st, _ := e.Is.State()
	sym.Assert(e.Is.IssueClaim(b) == issuer.ErrIdenGenesisOnly, "an issuer restricted to its genesis issues no claims")
	sym.Assert(e.Is.PublishState() == issuer.ErrIdenGenesisOnly, "an issuer restricted to its genesis refuses to publish")
	sym.Assert(e.Is.SyncIdenStatePublic() == issuer.ErrIdenGenesisOnly, "an issuer restricted to its genesis has nothing to synchronise")
	sym.Assert(e.Is.RevokeClaim(b) == issuer.ErrIdenGenesisOnly, "an issuer restricted to its genesis revokes no claims")
	s2, _ := e.Is.State()
	sym.Assert(*st == *s2, "the state of an issuer restricted to its genesis does not change")
	sym.Assert(len(e.Chain.Sent) == 0, "nothing is sent")
	sym.Reach("refused")
}

// A state is confirmed once as many blocks as configured follow its own.
//
//verif:entry reach=confirmed,waiting
func Depth() {
	c := cfg
	c.ConfirmBlocks = sym.U64("want")
	r := &run{e: iden.New(c)}
	sym.Assert(r.e.Load() == nil, "the issuer opens")
	r.issue()
	if sym.Choose("later", 2) == 1 {
		// an earlier state that is confirmed
		sym.Assert(r.e.Publish() == nil, "a state is published")
		r.e.Chain.Mine()
		r.e.Chain.Block += c.ConfirmBlocks
		sym.Assume(c.ConfirmBlocks < 1<<62)
		sym.Assert(r.e.Is.SyncIdenStatePublic() == nil, "the issuer synchronises")
		sym.Assert(*r.e.Is.IdenStateOnChain() == r.e.Chain.Sent[0].State, "the first state is confirmed")
		r.revoke()
	}
	was := *r.e.Is.IdenStateOnChain()
	sym.Assert(r.e.Publish() == nil, "a state is published")
	r.e.Chain.Mine()
	if sym.Choose("reopened", 2) == 1 {
		sym.Assert(r.e.Load() == nil, "the issuer opens again")
	}
	k := sym.U64("blocks")
	sym.Assume(k < 1<<62)
	r.e.Chain.Block += k
	if sym.Choose("by", 2) == 0 {
		sym.Assert(r.e.Is.SyncIdenStatePublic() == nil, "the issuer synchronises")
	} else {
		sym.Assert(r.e.Load() == nil, "the issuer opens again")
	}
	r.check()
	s := r.e.Chain.Sent[len(r.e.Chain.Sent)-1].State
	p, _ := r.e.Is.IdenStatePending()
	if k >= c.ConfirmBlocks {
		sym.Assert(*r.e.Is.IdenStateOnChain() == s, "a state deep enough is confirmed")
		sym.Assert(zero(p), "a confirmed state is not pending")
		sym.Reach("confirmed")
	} else {
		sym.Assert(*r.e.Is.IdenStateOnChain() == was, "a state not deep enough is not confirmed")
		sym.Assert(*p == s, "a state not deep enough is pending")
		sym.Reach("waiting")
	}
}
