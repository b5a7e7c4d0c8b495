package c08

import (
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func agree(mt *merkletree.MerkleTree, st db.Storage, levels int, have []merkletree.Data) {
	re, err := merkletree.NewMerkleTree(st, levels)
	sym.Assert(err == nil, "the storage reopens")
	sym.Assert(kit.EqHash(re.RootKey(), mt.RootKey()), "the stored root is the live root")
	for _, h := range have {
		for _, m := range []*merkletree.MerkleTree{mt, re} {
			d, err := m.GetDataByIndex(kit.Hi(h))
			sym.Assert(err == nil, "acknowledged entries are found")
			sym.Assert(kit.EqData(*d, h), "acknowledged entries are unchanged")
		}
	}
}

// Reopen after every insert.
//
//verif:entry reach=ok,refused levels=3
func Reopen() {
	levels := sym.Param("levels", 3)
	mt, st := kit.Tree(levels)
	var have []merkletree.Data
	for _, n := range []string{"a", "b", "c"} {
		d := kit.Data2(n)
		if mt.AddEntry(kit.Entry(d)) == nil {
			sym.Reach("ok")
			have = append(have, d)
		} else {
			sym.Reach("refused")
		}
		agree(mt, st, levels, have)
		if sym.Choose("reopen", 2) == 1 {
			mt, _ = merkletree.NewMerkleTree(st, levels)
		}
	}
}

// One storage operation fails during the last insert; then it is retried.
//
//verif:entry reach=fault,retried levels=3
func Fault() {
	levels := sym.Param("levels", 3)
	st := db.NewMemoryStorage()
	f := kit.NewFaulty(st)
	mt, err := merkletree.NewMerkleTree(f, levels)
	sym.Assert(err == nil, "a fresh tree opens")
	n := sym.Choose("n", 3)
	var have []merkletree.Data
	for i := 0; i < n; i++ {
		d := kit.Data2([]string{"a", "b"}[i])
		if mt.AddEntry(kit.Entry(d)) == nil {
			have = append(have, d)
		}
	}
	before := *mt.RootKey()
	d := kit.Data2("z")
	f.S.Armed, f.S.Fail = true, sym.Choose("fail", 8)
	err = mt.AddEntry(kit.Entry(d))
	f.S.Armed = false
	if !f.S.Hit {
		return
	}
	sym.Reach("fault")
	if err == nil {
		have = append(have, d)
	} else {
		sym.Assert(kit.EqHash(mt.RootKey(), &before), "a failed insert leaves the root")
	}
	agree(mt, st, levels, have)
	if err != nil {
		err = mt.AddEntry(kit.Entry(d))
		if err == nil {
			sym.Reach("retried")
			have = append(have, d)
		} else {
			dup := false
			for _, h := range have {
				dup = sym.Or(dup, kit.EqIndex(h, d))
			}
			sym.Assert(sym.Or(dup, err == merkletree.ErrReachedMaxLevel), "the retry succeeds unless the entry cannot be added")
		}
		agree(mt, st, levels, have)
	}
}

// Faults while opening and importing.
//
//verif:entry reach=fault
func OpenFault() {
	st := db.NewMemoryStorage()
	f := kit.NewFaulty(st)
	f.S.Armed, f.S.Fail = true, sym.Choose("fail", 3)
	mt, err := merkletree.NewMerkleTree(f, 4)
	f.S.Armed = false
	if !f.S.Hit {
		return
	}
	sym.Reach("fault")
	if err == nil {
		agree(mt, st, 4, nil)
	}
	re, err := merkletree.NewMerkleTree(st, 4)
	sym.Assert(err == nil, "the storage opens once the fault is gone")
	d := kit.Data2("a")
	sym.Assert(re.AddEntry(kit.Entry(d)) == nil, "the tree works once the fault is gone")
	agree(re, st, 4, []merkletree.Data{d})
}

// Opening an existing tree with a failing read must not lose the tree.
//
//verif:entry reach=fault
func ReopenFault() {
	st := db.NewMemoryStorage()
	f := kit.NewFaulty(st)
	mt, err := merkletree.NewMerkleTree(f, 4)
	sym.Assert(err == nil, "a fresh tree opens")
	a := kit.Data2("a")
	sym.Assert(mt.AddEntry(kit.Entry(a)) == nil, "first insert succeeds")
	f.S.Armed, f.S.Fail = true, sym.Choose("fail", 3)
	_, _ = merkletree.NewMerkleTree(f, 4)
	f.S.Armed = false
	if !f.S.Hit {
		return
	}
	sym.Reach("fault")
	agree(mt, st, 4, []merkletree.Data{a})
}
