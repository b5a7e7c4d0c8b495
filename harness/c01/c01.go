package c01

import (
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
	"github.com/iden3/go-iden3-crypto/constants"
	"github.com/iden3/go-iden3-crypto/utils"
)

// add inserts data into the tree and checks the outcome against the set of
// entries already present.  It returns the new set.
func add(mt *merkletree.MerkleTree, levels int, have []merkletree.Data, d merkletree.Data) []merkletree.Data {
	before := *mt.RootKey()
	err := mt.AddEntry(kit.Entry(d))
	dup := false
	deep := false
	for _, h := range have {
		dup = sym.Or(dup, kit.EqIndex(h, d))
		deep = sym.Or(deep, samePath(kit.Hi(h), kit.Hi(d), levels-1))
	}
	if err == nil {
		sym.Reach("added")
		sym.Assert(!dup, "an index is stored once")
		have = append(have, d)
	} else {
		sym.Assert(sym.Or(dup, deep), "insert fails only for duplicates and exhausted depth")
		if err == merkletree.ErrEntryIndexAlreadyExists {
			sym.Reach("dup")
			sym.Assert(dup, "the duplicate error means a duplicate")
		} else {
			sym.Reach("deep")
			sym.Assert(err == merkletree.ErrReachedMaxLevel, "the depth error is reported")
		}
		after := mt.RootKey()
		sym.Assert(kit.EqHash(&before, after), "failed insert leaves the root")
	}
	return have
}

// samePath tells whether two hashes agree on their first n path bits.
func samePath(a, b *merkletree.Hash, n int) bool {
	ok := true
	for i := 0; i < n; i++ {
		ok = sym.And(ok, kit.Bit(a, i) == kit.Bit(b, i))
	}
	return ok
}

func lookup(mt *merkletree.MerkleTree, have []merkletree.Data) {
	for _, h := range have {
		d, err := mt.GetDataByIndex(kit.Hi(h))
		sym.Assert(err == nil, "inserted entry is found")
		sym.Assert(kit.EqData(*d, h), "inserted data is returned")
	}
}

func absent(mt *merkletree.MerkleTree, have []merkletree.Data, q merkletree.Data) {
	in := false
	for _, h := range have {
		in = sym.Or(in, kit.EqIndex(h, q))
	}
	d, err := mt.GetDataByIndex(kit.Hi(q))
	if err == nil {
		sym.Assert(in, "nothing that was not inserted is found")
		ok := false
		for _, h := range have {
			ok = sym.Or(ok, kit.EqData(h, *d))
		}
		sym.Assert(ok, "found data was inserted")
	} else {
		sym.Reach("absent")
		sym.Assert(!in, "lookup fails only for absent indexes")
		sym.Assert(err == merkletree.ErrEntryIndexNotFound, "absence is reported as not found")
	}
}

// Two inserts of arbitrary entries (all eight elements arbitrary).
//
//verif:entry reach=added,dup,deep levels=6
func TwoInserts() {
	levels := sym.Param("levels", 6)
	mt, _ := kit.Tree(levels)
	a, b := kit.Data("a"), kit.Data("b")
	have := add(mt, levels, nil, a)
	sym.Assert(len(have) == 1, "first insert succeeds")
	have = add(mt, levels, have, b)
	lookup(mt, have)
}

// Three inserts and a lookup of an arbitrary index.
//
//verif:entry reach=added,dup,deep,absent levels=3
func ThreeInserts() {
	levels := sym.Param("levels", 3)
	mt, _ := kit.Tree(levels)
	var have []merkletree.Data
	for _, n := range []string{"a", "b", "c"} {
		have = add(mt, levels, have, kit.Data2(n))
	}
	lookup(mt, have)
	absent(mt, have, kit.Data2("q"))
}

// Four inserts.
//
//verif:entry reach=added,dup,deep levels=3 tier=thorough secs=400
func FourInserts() {
	levels := sym.Param("levels", 3)
	mt, _ := kit.Tree(levels)
	var have []merkletree.Data
	for _, n := range []string{"a", "b", "c", "d"} {
		have = add(mt, levels, have, kit.Data2(n))
	}
	lookup(mt, have)
}

// Two inserts whose paths agree on a long prefix, in a deep tree.  The shared
// prefix is fixed except around byte boundaries, where it is arbitrary.
//
//verif:entry reach=added,deep levels=24
func DeepInserts() {
	levels := sym.Param("levels", 24)
	deepInserts(levels)
}

// The same at the depth the identities use.
//
//verif:entry reach=added,deep tier=thorough levels=140
func FullDepthInserts() {
	deepInserts(sym.Param("levels", 140))
}

func deepInserts(levels int) {
	mt, _ := kit.Tree(levels)
	a, b := kit.Data2("a"), kit.Data2("b")
	ha, hb := kit.Hi(a), kit.Hi(b)
	fork := sym.Choose("fork", levels)
	for i := 0; i < levels; i++ {
		if i < fork && i != 8 && i != levels-2 {
			v := (i*5)%3 == 1
			sym.Assume(sym.And(kit.Bit(ha, i) == v, kit.Bit(hb, i) == v))
		} else if i < fork {
			sym.Assume(kit.Bit(ha, i) == kit.Bit(hb, i))
		} else if i == fork {
			sym.Assume(kit.Bit(ha, i) != kit.Bit(hb, i))
		}
	}
	have := add(mt, levels, nil, a)
	have = add(mt, levels, have, b)
	sym.Assert(sym.Or(len(have) == 2, fork == levels-1), "entries that part above the last level both fit")
	lookup(mt, have)
}

// Elements that are not field elements are refused and leave the tree alone.
//
//verif:entry reach=refused,accepted
func OutOfField() {
	mt, _ := kit.Tree(4)
	a := kit.Data2("a")
	sym.Assert(mt.AddEntry(kit.Entry(a)) == nil, "first insert succeeds")
	r := *mt.RootKey()
	b := kit.Data2("b")
	pos := sym.Choose("pos", merkletree.DataLen)
	copy(b[pos][:], sym.Bytes("raw", 32))
	v := b[pos].BigInt()
	inField := v.Cmp(constants.Q) < 0
	sym.Assert(inField == utils.CheckBigIntInField(v), "the field order is the BN254 scalar field order")
	err := mt.AddEntry(kit.Entry(b))
	if !inField {
		sym.Reach("refused")
		sym.Assert(err != nil, "an element outside the field is refused")
		sym.Assert(kit.EqHash(&r, mt.RootKey()), "a refused entry leaves the root")
		d, err := mt.GetDataByIndex(kit.Hi(a))
		sym.Assert(err == nil, "earlier entry is still found")
		sym.Assert(kit.EqData(*d, a), "earlier data is unchanged")
	} else if err == nil {
		sym.Reach("accepted")
	}
}

// Two threads inserting concurrently: no insert that reported success is lost.
//
//verif:entry reach=both preempt=2 yields=lock,go
func ConcurrentInserts() {
	mt, st := kit.Tree(3)
	a, b := kit.Data2("a"), kit.Data2("b")
	var e1, e2 error
	sym.Go(func() { e1 = mt.AddEntry(kit.Entry(a)) })
	sym.Go(func() { e2 = mt.AddEntry(kit.Entry(b)) })
	sym.Wait()
	sym.Assert(sym.Or(e1 == nil, e2 == nil), "one of two inserts into an empty tree succeeds")
	if e1 == nil {
		d, err := mt.GetDataByIndex(kit.Hi(a))
		sym.Assert(err == nil, "concurrently inserted entry is found")
		sym.Assert(kit.EqData(*d, a), "concurrently inserted data is returned")
	}
	if e2 == nil {
		d, err := mt.GetDataByIndex(kit.Hi(b))
		sym.Assert(err == nil, "concurrently inserted entry is found")
		sym.Assert(kit.EqData(*d, b), "concurrently inserted data is returned")
	}
	if e1 == nil && e2 == nil {
		sym.Reach("both")
	}
	re, err := merkletree.NewMerkleTree(st, 3)
	sym.Assert(err == nil, "the storage reopens")
	sym.Assert(kit.EqHash(re.RootKey(), mt.RootKey()), "the stored root is the current root")
}
