package c09

import (
	"bytes"

	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func member(mt *merkletree.MerkleTree, root *merkletree.Hash, have []merkletree.Data, q merkletree.Data) {
	exact, idx := false, false
	for _, d := range have {
		exact = sym.Or(exact, kit.EqData(d, q))
		idx = sym.Or(idx, kit.EqIndex(d, q))
	}
	err := mt.EntryExists(kit.Entry(q), root)
	switch {
	case err == nil:
		sym.Reach("present")
		sym.Assert(exact, "only entries equal in every element count as present")
	case err == merkletree.ErrEntryDataNotMatch:
		sym.Reach("differs")
		sym.Assert(sym.And(idx, !exact), "different data under the same index is reported as such")
	default:
		sym.Reach("absent")
		sym.Assert(err == merkletree.ErrEntryIndexNotFound, "absence is reported as not found")
		sym.Assert(!idx, "only absent indexes are reported as not found")
	}
}

// Current root.
//
//verif:entry reach=present,differs,absent levels=4
func Current() {
	mt, _ := kit.Tree(sym.Param("levels", 4))
	var have []merkletree.Data
	for i, n := 0, sym.Choose("n", 3); i < n; i++ {
		d := kit.Data([]string{"a", "b"}[i])
		if mt.AddEntry(kit.Entry(d)) == nil {
			have = append(have, d)
		}
	}
	var r *merkletree.Hash
	if sym.Choose("explicit", 2) == 1 {
		r = mt.RootKey()
	}
	member(mt, r, have, kit.Data("q"))
}

// An earlier root.
//
//verif:entry reach=present,differs,absent levels=4
func Earlier() {
	mt, _ := kit.Tree(sym.Param("levels", 4))
	a, b := kit.Data("a"), kit.Data("b")
	sym.Assert(mt.AddEntry(kit.Entry(a)) == nil, "first insert succeeds")
	r := *mt.RootKey()
	_ = mt.AddEntry(kit.Entry(b))
	member(mt, &r, []merkletree.Data{a}, kit.Data("q"))
}

// Equality of entries is equality of their bytes.
//
//verif:entry reach=equal,different
func Equality() {
	a, b := kit.Entry(kit.Data("a")), kit.Entry(kit.Data("b"))
	eq := a.Equal(b)
	sym.Assert(eq == bytes.Equal(a.Bytes(), b.Bytes()), "entries are equal when their bytes are")
	sym.Assert(b.Equal(a) == eq, "entry equality is symmetric")
	if eq {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
	c := a.Clone()
	sym.Assert(a.Equal(c) && kit.EqData(c.Data, a.Data), "a clone is equal")
	c.Data[sym.Choose("pos", 8)][3] ^= 1
	sym.Assert(!a.Equal(c), "changing a clone makes it different and leaves the original")
}
