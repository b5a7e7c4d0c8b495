// Package c27 checks what the off-chain publisher serves.
package c27

import (
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	_ "github.com/iden3/go-iden3-core/verifharness/model/leveldb"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

const url = "http://publisher.test"

var id = &core.ID{0, 1, 2}

func hash(name string) *merkletree.Hash {
	h := merkletree.Hash(sym.Elem(name))
	return &h
}

// data is arbitrary public data with the given trees.
func data(name string, rev, roots *merkletree.MerkleTree) *idenpuboffchain.PublicData {
	return &idenpuboffchain.PublicData{
		IdenState:           hash(name + ".state"),
		ClaimsTreeRoot:      hash(name + ".claims"),
		RevocationsTreeRoot: rev.RootKey(),
		RevocationsTree:     rev,
		RootsTreeRoot:       roots.RootKey(),
		RootsTree:           roots,
	}
}

func empty() *merkletree.MerkleTree {
	mt, _ := kit.Tree(4)
	return mt
}

func open(st db.Storage, n byte) *writerhttp.IdenPubOffChainWriteHttp {
	w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: n, Url: url}, st)
	sym.Assert(err == nil, "a publisher is created")
	return w
}

func reopen(st db.Storage) *writerhttp.IdenPubOffChainWriteHttp {
	w, err := writerhttp.LoadIdenPubOffChainWriteHttp(st)
	sym.Assert(err == nil, "a publisher is loaded")
	sym.Assert(w.Url() == url, "a loaded publisher has its address")
	return w
}

func is(b *idenpuboffchain.PublicDataBlobs, d *idenpuboffchain.PublicData) bool {
	return sym.And(kit.EqHash(&b.IdenState, d.IdenState), kit.EqHash(&b.ClaimsTreeRoot, d.ClaimsTreeRoot),
		kit.EqHash(&b.RevocationsTreeRoot, d.RevocationsTreeRoot), kit.EqHash(&b.RootsTreeRoot, d.RootsTreeRoot))
}

// serves checks every answer of the publisher, which keeps n states.
func serves(w *writerhttp.IdenPubOffChainWriteHttp, n int, pub []*idenpuboffchain.PublicData) {
	b, err := w.GetPublicData(nil)
	if len(pub) == 0 {
		sym.Assert(err != nil, "nothing is served before the first publication")
	} else {
		sym.Assert(err == nil, "the latest data is served")
		sym.Assert(is(b, pub[len(pub)-1]), "the latest data is the one published last")
	}
	for i, d := range pub {
		b, err := w.GetPublicData(d.IdenState)
		if i >= len(pub)-n {
			sym.Assert(err == nil, "a recent state is served")
			sym.Assert(is(b, d), "the data served is that of the state asked for")
		} else {
			sym.Assert(err != nil, "a state no longer kept is not served")
		}
	}
	q := hash("query")
	other := true
	for _, d := range pub {
		other = sym.And(other, !kit.EqHash(q, d.IdenState))
	}
	sym.AssumeFree(other)
	_, err = w.GetPublicData(q)
	sym.Assert(err != nil, "a state never published is not served")
}

func distinct(pub []*idenpuboffchain.PublicData, d *idenpuboffchain.PublicData) {
	ok := true
	for _, p := range pub {
		ok = sym.And(ok, !kit.EqHash(p.IdenState, d.IdenState))
	}
	sym.AssumeFree(ok)
}

func storage() db.Storage {
	if sym.Choose("storage", 2) == 0 {
		return db.NewMemoryStorage()
	}
	st, err := db.NewLevelDbStorage(sym.Scratch("ldb"), false)
	sym.Assert(err == nil, "a storage opens")
	return st
}

// Publications, one of which may fail, and restarts with small caches.
//
//verif:entry reach=served,failed n=4
func History() {
	n := 1 + sym.Choose("cache", sym.Param("n", 4))
	max := 2*n + 1
	m := sym.Choose("publications", max+1)
	f := kit.NewFaulty(storage())
	w := open(f, byte(n))
	at, fail := -1, 0
	if sym.Choose("fault", 2) == 1 {
		if m == 0 {
			sym.Assume(false)
		}
		at = m - 1
		fail = sym.Choose("op", 3)
	}
	re := -1
	if sym.Choose("restart", 2) == 1 {
		re = sym.Choose("when", m+1)
	}
	trees := empty()
	var pub []*idenpuboffchain.PublicData
	for i := 0; i <= m; i++ {
		if i == re {
			w = reopen(f)
		}
		if i == m {
			break
		}
		d := data("d", trees, trees)
		distinct(pub, d)
		if i == at {
			f.S.Armed, f.S.Fail, f.S.Ops = true, fail, 0
			err := w.Publish(id, d)
			f.S.Armed = false
			if f.S.Hit {
				sym.Assert(err != nil, "a failed publication is reported")
				sym.Reach("failed")
				serves(w, n, pub)
				if sym.Choose("retry", 2) == 0 {
					continue
				}
				err = w.Publish(id, d)
			}
			sym.Assert(err == nil, "a publication succeeds")
		} else {
			sym.Assert(w.Publish(id, d) == nil, "a publication succeeds")
		}
		pub = append(pub, d)
	}
	serves(w, n, pub)
	sym.Reach("served")
}

// Big caches, filled up to and past their end.
//
//verif:entry reach=served
func Wrap() {
	sizes := []int{5, 7, 13, 100, 127, 128, 129, 255}
	if sym.Thorough() {
		sizes = nil
		for i := 5; i < 256; i++ {
			sizes = append(sizes, i)
		}
	}
	n := sizes[sym.Choose("cache", len(sizes))]
	m := n - 1 + sym.Choose("publications", 4)
	st := db.NewMemoryStorage()
	w := open(st, byte(n))
	trees := empty()
	var pub []*idenpuboffchain.PublicData
	for i := 0; i < m; i++ {
		// the states differ; everything else is arbitrary for the last ones
		var s, c merkletree.Hash
		s[0], s[1], s[2] = 1, byte(i), byte(i>>8)
		c[0], c[1], c[2] = 2, byte(i), byte(i>>8)
		d := &idenpuboffchain.PublicData{IdenState: &s, ClaimsTreeRoot: &c,
			RevocationsTreeRoot: trees.RootKey(), RevocationsTree: trees, RootsTreeRoot: trees.RootKey(), RootsTree: trees}
		if i == m-1 {
			d.IdenState, d.ClaimsTreeRoot = hash("state"), hash("claims")
			sym.AssumeFree(d.IdenState[0] != 1)
		}
		sym.Assert(w.Publish(id, d) == nil, "a publication succeeds")
		pub = append(pub, d)
	}
	if sym.Choose("restart", 2) == 1 {
		w = reopen(st)
	}
	b, err := w.GetPublicData(nil)
	sym.Assert(err == nil, "the latest data is served")
	sym.Assert(is(b, pub[m-1]), "the latest data is the one published last")
	for i, d := range pub {
		if i > 2 && i < m-2 {
			continue
		}
		b, err := w.GetPublicData(d.IdenState)
		if i >= m-n {
			sym.Assert(err == nil, "a recent state is served")
			sym.Assert(is(b, d), "the data served is that of the state asked for")
		} else {
			sym.Assert(err != nil, "a state no longer kept is not served")
		}
	}
	sym.Reach("served")
}

// tree is a tree with k arbitrary entries in different leaves.
func tree(name string, k int) (*merkletree.MerkleTree, []merkletree.Data) {
	mt, _ := kit.Tree(4)
	var l []merkletree.Data
	for i := 0; i < k; i++ {
		d := kit.Data2(name)
		h := kit.Hi(d)
		sym.AssumeFree(h[0]&3 == byte(i))
		sym.Assert(mt.AddEntry(kit.Entry(d)) == nil, "an entry is added")
		l = append(l, d)
	}
	return mt, l
}

func holds(mt *merkletree.MerkleTree, root *merkletree.Hash, l []merkletree.Data) {
	sym.Assert(kit.EqHash(mt.RootKey(), root), "the tree read back has the root published")
	for _, d := range l {
		g, err := mt.GetDataByIndex(kit.Hi(d))
		sym.Assert(err == nil && kit.EqData(*g, d), "the tree read back holds what was published")
	}
}

// The trees served are those at the time of the publication.
//
//verif:entry reach=ok
func Trees() {
	st := db.NewMemoryStorage()
	w := open(st, 2)
	rev, l1 := tree("rev", sym.Choose("revocations", 3))
	roots, l2 := tree("roots", sym.Choose("roots", 3))
	cl := hash("claims")
	s, err := core.CalcIdenState(cl, rev.RootKey(), roots.RootKey())
	sym.Assert(err == nil, "a state is computed")
	d := &idenpuboffchain.PublicData{IdenState: s, ClaimsTreeRoot: cl, RevocationsTreeRoot: rev.RootKey(), RevocationsTree: rev,
		RootsTreeRoot: roots.RootKey(), RootsTree: roots}
	r1, r2 := *rev.RootKey(), *roots.RootKey()
	// the trees may have grown since the roots were taken
	if sym.Choose("grown", 2) == 1 {
		x := kit.Data2("later")
		h := kit.Hi(x)
		sym.AssumeFree(h[0]&3 == 3)
		sym.Assert(rev.AddEntry(kit.Entry(x)) == nil, "an entry is added")
		sym.Assert(roots.AddEntry(kit.Entry(x)) == nil, "an entry is added")
		d.RevocationsTreeRoot, d.RootsTreeRoot = &r1, &r2
	}
	sym.Assert(w.Publish(id, d) == nil, "a publication succeeds")
	switch sym.Choose("then", 3) {
	case 1:
		w = reopen(st)
	case 2:
		// another publication
		e := empty()
		o := data("o", e, e)
		sym.AssumeFree(!kit.EqHash(o.IdenState, s))
		sym.Assert(w.Publish(id, o) == nil, "a publication succeeds")
	}
	b, err := w.GetPublicData(s)
	sym.Assert(err == nil, "a recent state is served")
	p, err := idenpuboffchain.NewPublicDataFromBlobs(b)
	sym.Assert(err == nil, "the data served is consistent")
	sym.Assert(sym.And(kit.EqHash(p.IdenState, s), kit.EqHash(p.ClaimsTreeRoot, cl)), "the roots are those published")
	holds(p.RevocationsTree, &r1, l1)
	holds(p.RootsTree, &r2, l2)
	sym.Reach("ok")
}

// Two publications at the same time.
//
//verif:entry reach=ok preempt=2 yields=lock,go,map
func Concurrent() {
	w := open(db.NewMemoryStorage(), 3)
	e := empty()
	a, b, c := data("a", e, e), data("b", e, e), data("c", e, e)
	distinct([]*idenpuboffchain.PublicData{a}, b)
	distinct([]*idenpuboffchain.PublicData{a, b}, c)
	sym.Assert(w.Publish(id, a) == nil, "a publication succeeds")
	var e1, e2 error
	sym.Go(func() { e1 = w.Publish(id, b) })
	sym.Go(func() { e2 = w.Publish(id, c) })
	sym.Wait()
	sym.Assert(e1 == nil && e2 == nil, "simultaneous calls succeed")
	for _, d := range []*idenpuboffchain.PublicData{a, b, c} {
		s, err := w.GetPublicData(d.IdenState)
		sym.Assert(err == nil, "a recent state is served")
		sym.Assert(is(s, d), "the data served is that of the state asked for")
	}
	l, err := w.GetPublicData(nil)
	sym.Assert(err == nil, "the latest data is served")
	sym.Assert(sym.Or(is(l, b), is(l, c)), "the latest data is one of the two published last")
	sym.Reach("ok")
}

// A reader, of the latest or of a given state, during a publication that may
// take the place of that state.
//
//verif:entry reach=latest,state,gone preempt=2 yields=lock,go,map
func Reading() {
	n := 1 + sym.Choose("kept", 2)
	w := open(db.NewMemoryStorage(), byte(n))
	e := empty()
	a, b := data("a", e, e), data("b", e, e)
	distinct([]*idenpuboffchain.PublicData{a}, b)
	sym.Assert(w.Publish(id, a) == nil, "a publication succeeds")
	if n == 2 {
		// every place is taken
		z := data("z", e, e)
		distinct([]*idenpuboffchain.PublicData{a, b}, z)
		sym.Assert(w.Publish(id, z) == nil, "a publication succeeds")
		a = z
	}
	latest := sym.Choose("latest", 2) == 1
	var e1, e2 error
	var g *idenpuboffchain.PublicDataBlobs
	sym.Go(func() { e1 = w.Publish(id, b) })
	sym.Go(func() {
		if latest {
			g, e2 = w.GetPublicData(nil)
		} else {
			g, e2 = w.GetPublicData(a.IdenState)
		}
	})
	sym.Wait()
	sym.Assert(e1 == nil, "a publication succeeds")
	switch {
	case latest:
		sym.Reach("latest")
		sym.Assert(e2 == nil, "the latest data is served")
		sym.Assert(sym.Or(is(g, a), is(g, b)), "a reader sees one publication whole")
	case e2 == nil:
		sym.Reach("state")
		sym.Assert(is(g, a), "the data served is that of the state asked for")
	default:
		sym.Reach("gone")
		sym.Assert(n == 1, "a recent state is served")
	}
	l, err := w.GetPublicData(nil)
	sym.Assert(err == nil, "the latest data is served")
	sym.Assert(is(l, b), "the latest data is the one published last")
	_, err = w.GetPublicData(a.IdenState)
	sym.Assert((err == nil) == (n == 2), "a state is served while it is among the most recent kept")
}

// The in-process publisher keeps every state, while the trees grow.
//
//verif:entry reach=ok
func Local() {
	l := local.NewIdenPubOffChain(url)
	sym.Assert(l.Url() == url, "the publisher has its address")
	_, err := l.GetPublicData(url, id, nil)
	sym.Assert(err != nil, "nothing is served before the first publication")
	rev, l1 := tree("rev", sym.Choose("revocations", 3))
	roots, l2 := tree("roots", sym.Choose("roots", 2))
	r1, r2, cl := *rev.RootKey(), *roots.RootKey(), hash("claims")
	s, err := core.CalcIdenState(cl, &r1, &r2)
	sym.Assert(err == nil, "a state is computed")
	d := &idenpuboffchain.PublicData{IdenState: s, ClaimsTreeRoot: cl, RevocationsTreeRoot: &r1, RevocationsTree: rev, RootsTreeRoot: &r2, RootsTree: roots}
	grow := func(mt *merkletree.MerkleTree) {
		x := kit.Data2("later")
		h := kit.Hi(x)
		sym.AssumeFree(h[0]&3 == 3)
		sym.Assert(mt.AddEntry(kit.Entry(x)) == nil, "an entry is added")
	}
	when := sym.Choose("grown", 3)
	if when == 1 {
		grow(rev)
		grow(roots)
	}
	sym.Assert(l.Publish(id, d) == nil, "a publication succeeds")
	if when == 2 {
		grow(rev)
		grow(roots)
	}
	var o *idenpuboffchain.PublicData
	if sym.Choose("another", 2) == 1 {
		o = data("o", rev, roots)
		sym.AssumeFree(!kit.EqHash(o.IdenState, s))
		who := id
		if sym.Choose("other", 2) == 1 {
			who = &core.ID{9}
		}
		sym.Assert(l.Publish(who, o) == nil, "a publication succeeds")
		if who != id {
			o = nil
		}
	}
	p, err := l.GetPublicData(url, id, s)
	sym.Assert(err == nil, "a published state is served")
	sym.Assert(sym.And(kit.EqHash(p.IdenState, s), kit.EqHash(p.ClaimsTreeRoot, cl), kit.EqHash(p.RevocationsTreeRoot, &r1), kit.EqHash(p.RootsTreeRoot, &r2)), "the roots are those published")
	holds(p.RevocationsTree, &r1, l1)
	holds(p.RootsTree, &r2, l2)
	p, err = l.GetPublicData(url, id, nil)
	sym.Assert(err == nil, "the latest data is served")
	if o == nil {
		sym.Assert(kit.EqHash(p.IdenState, s), "the latest data is the one published last")
	} else {
		sym.Assert(kit.EqHash(p.IdenState, o.IdenState), "the latest data is the one published last")
	}
	q := hash("query")
	sym.AssumeFree(!kit.EqHash(q, s) && (o == nil || !kit.EqHash(q, o.IdenState)))
	_, err = l.GetPublicData(url, id, q)
	sym.Assert(err != nil, "a state never published is not served")
	_, err = l.GetPublicData(url, &core.ID{7}, s)
	sym.Assert(err != nil, "another identity is not served")
	_, err = l.GetPublicData(url+"x", id, s)
	sym.Assert(err != nil, "another address is not served")
	sym.Reach("ok")
}
