// Package c34 checks that operations on an issuer that run at once have the
// effect of the same operations one after the other.
package c34

import (
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/iden"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

var cfg = issuer.Config{MaxLevelsClaimsTree: 6, MaxLevelsRevocationTree: 6, MaxLevelsRootsTree: 6, ConfirmBlocks: 1}

const (
	opIssue = iota
	opIssueOther
	opRevoke
	opPublish
	opSync
	opState
	opOnChain
	opPending
	opConfirmed
	opCred
	opCredOther
	nops
)

// world is an issuer with a published claim and maybe another that is not.
type world struct {
	*iden.Env
	cs     [4]claims.ClaimBasic
	issued [4]bool
}

// result is what an operation answers.
type result struct {
	ok     bool
	flag   bool
	hashes []merkletree.Hash
	nums   []uint64
}

func (r *result) hash(hs ...*merkletree.Hash) {
	for _, h := range hs {
		r.hashes = append(r.hashes, *h)
	}
}

func same(a, b *result) bool {
	if len(a.hashes) != len(b.hashes) || len(a.nums) != len(b.nums) {
		return false
	}
	ok := sym.And(a.ok == b.ok, a.flag == b.flag)
	for i := range a.hashes {
		ok = sym.And(ok, kit.EqHash(&a.hashes[i], &b.hashes[i]))
	}
	for i := range a.nums {
		ok = sym.And(ok, a.nums[i] == b.nums[i])
	}
	return ok
}

var given [4]claims.ClaimBasic

// The beginning of each history: the same, whatever comes then.
func begin(stage int) *world {
	w := &world{Env: iden.New(cfg), cs: given}
	sym.Assert(w.Load() == nil, "the issuer opens")
	for i := range w.cs {
		w.Place(&w.cs[i], i+1)
	}
	sym.Assert(w.do(opIssueFirst).ok, "a claim is issued")
	w.place()
	sym.Assert(w.do(opPublish).ok, "a state is published")
	w.Chain.Mine()
	w.Chain.Mine()
	if stage > 0 {
		sym.Assert(w.do(opSync).ok, "the state is confirmed")
	}
	if stage > 1 {
		sym.Assert(w.do(opIssueSecond).ok, "a claim is issued")
	}
	return w
}

const (
	opIssueFirst = nops + iota
	opIssueSecond
)

// place assumes a place for the leaf that a publication would add.
func (w *world) place() {
	n := 0
	for _, b := range w.issued {
		if b {
			n++
		}
	}
	w.N = n
	_, r := w.Is.State()
	w.At(kit.Hi(claims.NewLeafRootsTree(*r.ClaimsTreeRoot).Entry().Data), w.Root0()+w.place0())
}

// place0 tells the sets of claims apart.
func (w *world) place0() int {
	n := 0
	for i, b := range w.issued {
		if b {
			n += []int{1, 1, 2, 4}[i]
		}
	}
	return n
}

func (w *world) issue(i int) *result {
	c := w.cs[i]
	err := w.Is.IssueClaim(&c)
	r := &result{ok: err == nil}
	if err == nil {
		w.cs[i] = c
		w.issued[i] = true
		r.nums = append(r.nums, uint64(w.cs[i].Metadata().RevNonce))
	}
	return r
}

func (w *world) do(op int) *result {
	switch op {
	case opIssueFirst:
		return w.issue(0)
	case opIssueSecond:
		return w.issue(1)
	case opIssue:
		return w.issue(2)
	case opIssueOther:
		return w.issue(3)
	case opRevoke:
		return &result{ok: w.Is.RevokeClaim(claims.NewClaimGeneric(given[0].Entry())) == nil}
	case opPublish:
		return &result{ok: w.Is.PublishState() == nil}
	case opSync:
		return &result{ok: w.Is.SyncIdenStatePublic() == nil}
	case opState:
		s, t := w.Is.State()
		r := &result{ok: true}
		r.hash(s, t.ClaimsTreeRoot, t.RevocationsTreeRoot, t.RootsTreeRoot)
		return r
	case opOnChain:
		d := w.Is.StateDataOnChain()
		r := &result{ok: true, nums: []uint64{d.BlockN, uint64(d.BlockTs)}}
		r.hash(d.IdenState)
		return r
	case opPending:
		s, t := w.Is.IdenStatePending()
		r := &result{ok: true, flag: t}
		r.hash(s)
		return r
	case opConfirmed:
		r := &result{ok: true}
		r.hash(w.Is.IdenStateOnChain())
		return r
	case opCred:
		return w.cred(0)
	}
	return w.cred(1)
}

func (w *world) cred(i int) *result {
	c, err := w.Is.GenCredentialExistence(claims.NewClaimGeneric(w.cs[i].Entry()))
	r := &result{ok: err == nil}
	if err != nil {
		return r
	}
	return r.cred(c)
}

func (r *result) cred(c *proof.CredentialExistence) *result {
	r.hash(c.IdenStateData.IdenState, c.RevocationsTreeRoot, c.RootsTreeRoot)
	r.nums = append(r.nums, c.IdenStateData.BlockN, uint64(len(c.MtpClaim.Siblings)))
	for _, s := range c.MtpClaim.Siblings {
		r.hash(s)
	}
	return r
}

// end is what is left.
func (w *world) end() *result {
	r := w.do(opState)
	for _, op := range []int{opOnChain, opPending, opConfirmed} {
		x := w.do(op)
		r.flag = r.flag || x.flag
		r.hash2(x)
	}
	r.nums = append(r.nums, uint64(len(w.Chain.Sent)), uint64(w.Chain.Reject), uint64(len(w.Off.Blobs)))
	for i := range w.Chain.Sent {
		r.hash(&w.Chain.Sent[i].Old, &w.Chain.Sent[i].State)
	}
	for i := range w.Off.Blobs {
		b := &w.Off.Blobs[i]
		r.hash(&b.IdenState, &b.ClaimsTreeRoot, &b.RevocationsTreeRoot, &b.RootsTreeRoot)
	}
	return r
}

func (r *result) hash2(x *result) {
	r.hashes = append(r.hashes, x.hashes...)
	r.nums = append(r.nums, x.nums...)
}

func sequence(stage int, ops ...int) []*result {
	w := begin(stage)
	var rs []*result
	for _, op := range ops {
		if op == opPublish {
			w.place()
		}
		rs = append(rs, w.do(op))
	}
	return append(rs, w.end())
}

func start() {
	for i := range given {
		c := (&iden.Env{}).Claim("c" + string(rune('0'+i)))
		given[i] = *c
	}
}

// Two operations at once.
//
//verif:entry reach=both preempt=1 yields=lock,go
func Pairs() {
	var stage int
	if !sym.Thorough() {
		stage = 2 * sym.Choose("stage", 2)
	} else {
		stage = sym.Choose("stage", 3)
	}
	a := sym.Choose("first", nops)
	b := sym.Choose("second", nops)
	sym.Assume(a <= b && a < opState) // what only asks has no effect
	start()
	ab := sequence(stage, a, b)
	ba := ab
	if a != b {
		ba = sequence(stage, b, a)
	}
	w := begin(stage)
	var ra, rb *result
	sym.Go(func() { ra = w.do(a) })
	sym.Go(func() { rb = w.do(b) })
	sym.Wait()
	e := w.end()
	sym.Assert(sym.Or(
		sym.And(same(ra, ab[0]), same(rb, ab[1]), same(e, ab[2])),
		sym.And(same(ra, ba[1]), same(rb, ba[0]), same(e, ba[2]))), "operations at once have the effect of one after the other")
	sym.Reach("both")
}

// A state that is asked for while claims are issued and revoked is one that
// the issuer had.
//
//verif:entry reach=torn preempt=2 yields=lock,go
func Torn() {
	start()
	w := begin(2)
	states := []*result{w.do(opState)}
	for _, op := range []int{opIssue, opRevoke} {
		sym.Assert(w.do(op).ok, "the operation succeeds")
		states = append(states, w.do(opState))
	}
	w = begin(2)
	var r *result
	sym.Go(func() { r = w.do(opState) })
	sym.Go(func() {
		w.do(opIssue)
		w.do(opRevoke)
	})
	sym.Wait()
	sym.Assert(sym.Or(same(r, states[0]), same(r, states[1]), same(r, states[2])), "a state is one that the issuer had")
	sym.Reach("torn")
}

// A credential that is asked for while a later state is published and
// confirmed is one of the time before or of the time after.
//
//verif:entry reach=credential preempt=2 yields=lock,go
func Credential() {
	start()
	which := sym.Choose("claim", 2)
	run := func(w *world, then func()) {
		w.do(opRevoke)
		w.Is.PublishState()
		then()
		w.Chain.Mine()
		w.Chain.Mine()
		then()
		w.do(opSync)
		then()
	}
	w := begin(2)
	w.place()
	var was []*result
	was = append(was, w.cred(which))
	run(w, func() { was = append(was, w.cred(which)) })
	w = begin(2)
	var r *result
	sym.Go(func() { r = w.cred(which) })
	sym.Go(func() { run(w, func() {}) })
	sym.Wait()
	ok := same(r, was[0])
	for _, x := range was[1:] {
		ok = sym.Or(ok, same(r, x))
	}
	sym.Assert(ok, "a credential is one that the issuer gave before, between or after")
	sym.Reach("credential")
}
