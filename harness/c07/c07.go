package c07

import (
	"bytes"

	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

// leaves lists the entries a walk from the root meets.
func leaves(mt *merkletree.MerkleTree, root *merkletree.Hash) (r []merkletree.Data) {
	err := mt.Walk(root, func(n *merkletree.Node) {
		if n.Type == merkletree.NodeTypeLeaf {
			r = append(r, n.Entry.Data)
		}
	})
	sym.Assert(err == nil, "the walk completes")
	return
}

// View of every root while the tree grows by up to three entries.
//
//verif:entry reach=snapshot,missing levels=4
func Grow() {
	levels := sym.Param("levels", 4)
	mt, _ := kit.Tree(levels)
	at := sym.Choose("at", 3)
	var have, then []merkletree.Data
	var snap *merkletree.MerkleTree
	var root merkletree.Hash
	for i, n := range []string{"a", "b", "c"} {
		if i == at {
			root = *mt.RootKey()
			then = append(then, have...)
			var err error
			snap, err = mt.Snapshot(mt.RootKey())
			sym.Assert(err == nil, "a snapshot of the current root opens")
		}
		d := kit.Data2(n)
		if mt.AddEntry(kit.Entry(d)) == nil {
			have = append(have, d)
		}
	}
	late, err := mt.Snapshot(&root)
	sym.Assert(err == nil, "a snapshot of an earlier root opens")
	cur := *mt.RootKey()
	q := kit.Data2("q")
	hq := kit.Hi(q)
	in := false
	for _, d := range then {
		in = sym.Or(in, kit.EqIndex(d, q))
	}
	which := sym.Choose("which", 2)
	s := snap
	if which == 1 {
		s = late
	}
	sym.Reach("snapshot")
	sym.Assert(kit.EqHash(s.RootKey(), &root), "the snapshot keeps its root")
	sym.Assert(s.MaxLevels() == levels, "the snapshot has the depth of the tree")
	d, err := s.GetDataByIndex(hq)
	if err == nil {
		sym.Assert(in, "the snapshot holds only earlier entries")
		ok := false
		for _, x := range then {
			ok = sym.Or(ok, kit.EqData(x, *d))
		}
		sym.Assert(ok, "the snapshot returns the data of that time")
	} else {
		sym.Reach("missing")
		sym.Assert(err == merkletree.ErrEntryIndexNotFound, "absence is reported as not found")
		sym.Assert(!in, "the snapshot holds all earlier entries")
	}
	p, err := s.GenerateProof(hq, nil)
	sym.Assert(err == nil, "the snapshot generates proofs")
	sym.Assert(p.Existence == in, "snapshot proofs are about that time")
	sym.Assert(merkletree.VerifyProof(&root, p, hq, kit.Hv(q)) || p.Existence, "snapshot proofs verify")
	e := s.AddEntry(kit.Entry(kit.Data2("w")))
	sym.Assert(e == merkletree.ErrNotWritable, "a snapshot refuses inserts")
	sym.Assert(kit.EqHash(s.RootKey(), &root), "a refused insert leaves the snapshot")
	sym.Assert(kit.EqHash(mt.RootKey(), &cur), "a refused insert leaves the tree")
	ls := leaves(s, nil)
	sym.Assert(len(ls) == len(then), "a walk of the snapshot meets each entry once")
	ls = leaves(mt, &root)
	sym.Assert(len(ls) == len(then), "a walk of the earlier root meets each entry once")
	for _, l := range ls {
		ok := false
		for _, x := range then {
			ok = sym.Or(ok, kit.EqData(x, l))
		}
		sym.Assert(ok, "the walk meets earlier entries only")
	}
}

// A snapshot, and a root read, before the dump of another tree is imported.
//
//verif:entry reach=grown,kept levels=4
func Import() {
	levels := sym.Param("levels", 4)
	mt, _ := kit.Tree(levels)
	a := kit.Data2("a")
	had := sym.Choose("had", 2) == 1 && mt.AddEntry(kit.Entry(a)) == nil
	read := mt.RootKey()
	root := *read
	snap, err := mt.Snapshot(mt.RootKey())
	sym.Assert(err == nil, "a snapshot of the current root opens")

	src, _ := kit.Tree(levels)
	b := kit.Data2("b")
	sym.Assume(src.AddEntry(kit.Entry(b)) == nil)
	w := bytes.NewBuffer(nil)
	sym.Assert(src.DumpTree(w, nil) == nil, "the tree is dumped")
	if mt.ImportTree(w) == nil {
		sym.Reach("grown")
		sym.Assert(kit.EqHash(mt.RootKey(), src.RootKey()), "the imported root is that of the dump")
	}
	sym.Assert(kit.EqHash(read, &root), "a root that was read does not change")
	sym.Assert(kit.EqHash(snap.RootKey(), &root), "the snapshot keeps its root")
	ls := leaves(snap, nil)
	if had {
		sym.Reach("kept")
		sym.Assert(len(ls) == 1, "a walk of the snapshot meets each entry once")
		sym.Assert(kit.EqData(ls[0], a), "the snapshot returns its data")
	} else {
		sym.Assert(len(ls) == 0, "a walk of the snapshot meets each entry once")
	}
	d, err := snap.GetDataByIndex(kit.Hi(b))
	sym.Assert((err == nil) == (had && kit.EqIndex(a, b)), "the snapshot holds only earlier entries")
	if err == nil {
		sym.Assert(kit.EqData(*d, a), "the snapshot returns the data of that time")
	}
	sym.Assert(kit.EqHash(&merkletree.HashZero, &merkletree.Hash{}), "the zero hash stays zero")
}

// Roots the tree never had.
//
//verif:entry reach=refused,known levels=4
func Unknown() {
	mt, _ := kit.Tree(sym.Param("levels", 4))
	roots := []merkletree.Hash{merkletree.HashZero}
	for _, n := range []string{"a", "b"} {
		if mt.AddEntry(kit.Entry(kit.Data2(n))) == nil {
			roots = append(roots, *mt.RootKey())
		}
	}
	var r merkletree.Hash
	copy(r[:], sym.Bytes("root", 32))
	s, err := mt.Snapshot(&r)
	had := false
	for i := range roots {
		had = sym.Or(had, kit.EqHash(&roots[i], &r))
	}
	if err != nil {
		sym.Reach("refused")
		sym.Assert(!had, "every root the tree had opens")
		sym.Assert(s == nil, "no snapshot with an error")
	} else {
		sym.Reach("known")
		sym.Assert(kit.EqHash(s.RootKey(), &r), "the snapshot has the requested root")
	}
	w := bytes.NewBuffer(nil)
	err2 := mt.DumpTree(w, &r)
	sym.Assert((err2 == nil) == (err == nil), "dumping an unknown root fails too")
}

// A snapshot read while another thread inserts.
//
//verif:entry reach=read preempt=2 yields=lock,go,map
func Concurrent() {
	mt, _ := kit.Tree(3)
	a, b := kit.Data2("a"), kit.Data2("b")
	sym.Assert(mt.AddEntry(kit.Entry(a)) == nil, "first insert succeeds")
	r := *mt.RootKey()
	sym.Go(func() { _ = mt.AddEntry(kit.Entry(b)) })
	sym.Go(func() {
		s, err := mt.Snapshot(&r)
		sym.Assert(err == nil, "a snapshot of an earlier root opens")
		d, err := s.GetDataByIndex(kit.Hi(a))
		sym.Assert(err == nil, "the snapshot holds the earlier entry")
		sym.Assert(kit.EqData(*d, a), "the snapshot returns its data")
		sym.Reach("read")
	})
	sym.Wait()
	d, err := mt.GetDataByIndex(kit.Hi(a))
	sym.Assert(err == nil, "the tree holds the earlier entry")
	sym.Assert(kit.EqData(*d, a), "the tree returns its data")
}
