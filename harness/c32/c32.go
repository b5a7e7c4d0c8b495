// Package c32 checks that what is made for concurrent use is free of data races.
package c32

import (
	"bytes"
	"time"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	offlocal "github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	onlocal "github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	noncedb "github.com/iden3/go-iden3-core/utils/noncedb"
	"github.com/iden3/go-iden3-core/verifharness/iden"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	zkmodel "github.com/iden3/go-iden3-core/verifharness/model/zk"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

// pair runs two of the operations at once, every pair in turn.
func pair(ops ...func()) {
	a := sym.Choose("first", len(ops))
	b := sym.Choose("second", len(ops))
	sym.Assume(a <= b)
	sym.Go(ops[a])
	sym.Go(ops[b])
	sym.Wait()
	sym.Reach("done")
}

//verif:entry reach=done race=1
func Nonces() {
	n := noncedb.NewNonceDb()
	n.Add("a", 10, nil)
	n.Add("b", -10, nil)
	pair(
		func() { n.Add("c", sym.I64("delta"), nil) },
		func() { n.New(10, nil) },
		func() { n.AddAux("a", 1) },
		func() { n.Search("a") },
		func() { n.SearchAndDelete("a") },
		func() { n.DeleteOld() },
	)
}

//verif:entry reach=done race=1 levels=4
func Tree() {
	levels := sym.Param("levels", 4)
	mt, _ := kit.Tree(levels)
	a, b, c := kit.Data2("a"), kit.Data2("b"), kit.Data2("c")
	sym.Assume(mt.AddEntry(kit.Entry(a)) == nil)
	root := mt.RootKey()
	dump := bytes.NewBuffer(nil)
	sym.Assume(mt.DumpTree(dump, nil) == nil)
	pair(
		func() { _ = mt.AddEntry(kit.Entry(b)) },
		func() { _ = mt.AddEntry(kit.Entry(c)) },
		func() { _, _ = mt.GetDataByIndex(kit.Hi(a)) },
		func() { _ = mt.EntryExists(kit.Entry(a), nil) },
		func() { _, _ = mt.GenerateProof(kit.Hi(b), nil) },
		func() { _, _ = mt.GenerateProof(kit.Hi(a), root) },
		func() { _, _ = mt.DumpClaims(nil) },
		func() { _ = mt.DumpTree(bytes.NewBuffer(nil), nil) },
		func() { _ = mt.ImportTree(bytes.NewReader(dump.Bytes())) },
		func() { _, _ = mt.Snapshot(root) },
		func() { _ = mt.Walk(nil, func(*merkletree.Node) {}) },
	)
}

var cfg = issuer.Config{MaxLevelsClaimsTree: 6, MaxLevelsRevocationTree: 6, MaxLevelsRootsTree: 6, ConfirmBlocks: 1}

// An issuer with a published claim, another one to publish, and a state that
// is pending, or not, when it is used.
//
//verif:entry reach=done race=1
func Issuer() {
	e := iden.New(cfg)
	sym.Assert(e.Load() == nil, "the issuer opens")
	var cs [3]*claims.ClaimBasic
	for i := range cs {
		cs[i] = e.Claim("c" + string(rune('0'+i)))
	}
	issue := func(i int) {
		e.Place(cs[i], i+1)
		sym.Assert(e.Is.IssueClaim(cs[i]) == nil, "a claim is issued")
		e.N++
	}
	issue(0)
	sym.Assert(e.Publish() == nil, "a state is published")
	e.Chain.Mine()
	e.Chain.Mine()
	stage := sym.Choose("stage", 3)
	if stage > 0 {
		sym.Assert(e.Is.SyncIdenStatePublic() == nil, "the state is confirmed")
	}
	if stage > 1 {
		issue(1)
	}
	e.Place(cs[2], 3)
	is := e.Is
	pair(
		func() {
			c := *cs[2]
			_ = is.IssueClaim(&c)
		},
		func() { _ = is.RevokeClaim(cs[0]) },
		func() { _ = is.PublishState() },
		func() { _ = is.SyncIdenStatePublic() },
		func() { _, _ = is.GenCredentialExistence(claims.NewClaimGeneric(cs[0].Entry())) },
		func() { is.State() },
		func() { is.StateDataOnChain() },
		func() { is.IdenStateOnChain() },
		func() { is.IdenStatePending() },
		func() { is.ID(); is.KeyOperational() },
	)
}

var id = &core.ID{0, 1, 2}

func public(name string, rev, roots *merkletree.MerkleTree) *idenpuboffchain.PublicData {
	h := func(n string) *merkletree.Hash {
		x := merkletree.Hash(sym.Elem(name + n))
		return &x
	}
	return &idenpuboffchain.PublicData{IdenState: h(".state"), ClaimsTreeRoot: h(".claims"), RevocationsTreeRoot: rev.RootKey(), RevocationsTree: rev, RootsTreeRoot: roots.RootKey(), RootsTree: roots}
}

//verif:entry reach=done race=1
func Publisher() {
	w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: 2, Url: "http://publisher.test"}, db.NewMemoryStorage())
	sym.Assert(err == nil, "a publisher is created")
	t, _ := kit.Tree(4)
	a, b, c := public("a", t, t), public("b", t, t), public("c", t, t)
	sym.Assert(w.Publish(id, a) == nil, "a publication succeeds")
	pair(
		func() { _ = w.Publish(id, b) },
		func() { _ = w.Publish(id, c) },
		func() { _, _ = w.GetPublicData(nil) },
		func() { _, _ = w.GetPublicData(a.IdenState) },
		func() { w.Url() },
	)
}

//verif:entry reach=done race=1
func InProcess() {
	w := offlocal.NewIdenPubOffChain("local")
	t, _ := kit.Tree(4)
	x := kit.Data2("x")
	a, b, c := public("a", t, t), public("b", t, t), public("c", t, t)
	sym.Assert(w.Publish(id, a) == nil, "a publication succeeds")
	pair(
		func() { _ = w.Publish(id, b) },
		func() { _ = w.Publish(id, c) },
		func() { _, _ = w.GetPublicData("local", id, nil) },
		func() {
			if d, err := w.GetPublicData("local", id, a.IdenState); err == nil {
				_, _ = d.RevocationsTree.GenerateProof(kit.Hi(x), nil)
			}
		},
		func() { _ = t.AddEntry(kit.Entry(x)) },
	)
}

//verif:entry reach=done race=1
func Chain() {
	zkmodel.Valid, zkmodel.NumSignals = true, 3
	o := onlocal.New(func() time.Time { return time.Unix(1000, 0) }, func() uint64 { return 10 }, &zktypes.Vk{})
	h := func(n string) *merkletree.Hash {
		x := merkletree.Hash(sym.Elem(n))
		return &x
	}
	g, s1, s2 := h("g"), h("s1"), h("s2")
	_, err := o.InitState(id, g, s1, &zktypes.Proof{})
	sym.Assert(err == nil, "a first state is set")
	if sym.Choose("synced", 2) == 1 {
		o.Sync()
	}
	pair(
		func() { o.Sync() },
		func() { _, _ = o.SetState(id, s2, &zktypes.Proof{}) },
		func() { _, _ = o.InitState(&core.ID{1}, g, s2, &zktypes.Proof{}) },
		func() { _, _ = o.GetState(id) },
		func() { _, _ = o.GetStateByBlock(id, sym.U64("block")) },
		func() { _, _ = o.GetStateByTime(id, sym.I64("time")) },
	)
}

// Trees and values of one storage.
//
//verif:entry reach=done race=1
func Storage() {
	st := db.NewMemoryStorage()
	other := st.WithPrefix([]byte("other"))
	put := func(s db.Storage, k string, b byte) {
		tx, err := s.NewTx()
		sym.Assert(err == nil, "a transaction opens")
		_, _ = tx.Get([]byte(k))
		tx.Put([]byte(k), []byte{b})
		sym.Assert(tx.Commit() == nil, "a transaction commits")
	}
	v := db.NewStorageValue([]byte("v"))
	put(st, "a", sym.U8("a"))
	pair(
		func() { put(st, "a", sym.U8("b")) },
		func() { put(other, "a", sym.U8("c")) },
		func() { _, _ = st.Get([]byte("a")) },
		func() { _, _ = other.Get([]byte("a")) },
		func() { _ = st.Iterate(func(k, v []byte) (bool, error) { return true, nil }) },
		func() { _, _ = other.List(2) },
		func() {
			tx, err := other.NewTx()
			sym.Assert(err == nil, "a transaction opens")
			v.Set(tx, sym.U32("v"))
			_ = tx.Commit()
		},
	)
}
