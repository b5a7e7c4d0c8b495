package c03

import (
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func check(mt *merkletree.MerkleTree, root *merkletree.Hash, present []merkletree.Data, q merkletree.Data, explicit bool) {
	var rk *merkletree.Hash
	if explicit {
		rk = root
	}
	hi, hv := kit.Hi(q), kit.Hv(q)
	in, exact := false, false
	for _, d := range present {
		in = sym.Or(in, kit.EqIndex(d, q))
		exact = sym.Or(exact, kit.EqData(d, q))
	}
	p, err := mt.GenerateProof(hi, rk)
	sym.Assert(err == nil, "a proof is generated")
	sym.Assert(p.Existence == in, "the proof states existence exactly for present indexes")
	p2, err := merkletree.NewProofFromBytes(p.Bytes())
	sym.Assert(err == nil, "a generated proof parses back")
	if p.Existence {
		sym.Reach("exists")
		v := merkletree.VerifyProof(root, p, hi, hv)
		// index elements of q outside e1 and value outside e6 are zero in both
		sym.Assert(sym.Or(!exact, v), "the existence proof verifies with the stored hashes")
		sym.Assert(merkletree.VerifyProof(root, p2, hi, hv) == v, "the parsed proof verifies alike")
	} else {
		sym.Reach("absent")
		sym.Assert(merkletree.VerifyProof(root, p, hi, hv), "the non-existence proof verifies")
		sym.Assert(merkletree.VerifyProof(root, p2, hi, hv), "the parsed non-existence proof verifies")
	}
}

// Proofs under the current root.
//
//verif:entry reach=exists,absent levels=4
func Current() {
	levels := sym.Param("levels", 4)
	n := sym.Choose("n", 3)
	mt, _ := kit.Tree(levels)
	names := []string{"a", "b", "c"}
	var have []merkletree.Data
	for i := 0; i < n; i++ {
		d := kit.Data2(names[i])
		if mt.AddEntry(kit.Entry(d)) == nil {
			have = append(have, d)
		}
	}
	check(mt, mt.RootKey(), have, kit.Data2("q"), sym.Choose("explicit", 2) == 1)
}

// Three entries.
//
//verif:entry reach=exists,absent levels=3
func Three() {
	mt, _ := kit.Tree(sym.Param("levels", 3))
	var have []merkletree.Data
	for _, n := range []string{"a", "b", "c"} {
		d := kit.Data2(n)
		if mt.AddEntry(kit.Entry(d)) == nil {
			have = append(have, d)
		}
	}
	check(mt, mt.RootKey(), have, kit.Data2("q"), false)
}

// Proofs under an earlier root while the tree has grown.
//
//verif:entry reach=exists,absent levels=4
func Historical() {
	mt, _ := kit.Tree(sym.Param("levels", 4))
	var have []merkletree.Data
	names := []string{"a", "b", "c"}
	at := sym.Choose("at", 3)
	var root merkletree.Hash
	var then []merkletree.Data
	for i, n := range names {
		if i == at {
			root = *mt.RootKey()
			then = append(then, have...)
		}
		d := kit.Data2(n)
		if mt.AddEntry(kit.Entry(d)) == nil {
			have = append(have, d)
		}
	}
	check(mt, &root, then, kit.Data2("q"), true)
}

// Deep trees: the sibling bitmap around byte boundaries.
//
//verif:entry reach=exists,absent levels=20
func Deep() {
	deep(sym.Param("levels", 20))
}

// The depth the identities use.
//
//verif:entry reach=exists,absent levels=140 tier=thorough
func FullDepth() {
	deep(sym.Param("levels", 140))
}

func deep(levels int) {
	mt, _ := kit.Tree(levels)
	a, b := kit.Data2("a"), kit.Data2("b")
	ha, hb := kit.Hi(a), kit.Hi(b)
	q := kit.Data2("q")
	hq := kit.Hi(q)
	fork := sym.Choose("fork", levels-1)
	qf := sym.Choose("qfork", 3) // where q leaves the common path, relative to fork
	for i := 0; i <= fork; i++ {
		v := (i*5)%3 == 1
		sym.Assume(kit.Bit(ha, i) == v)
		if i < fork {
			sym.Assume(kit.Bit(hb, i) == v)
		} else {
			sym.Assume(kit.Bit(hb, i) != v)
		}
		if qf == 0 && i == fork/2 {
			sym.Assume(kit.Bit(hq, i) != v)
		} else if qf == 1 || i < fork/2 {
			sym.Assume(kit.Bit(hq, i) == v)
		} else if qf == 2 {
			sym.Assume(kit.Bit(hq, i) == kit.Bit(hb, i))
		}
	}
	sym.Assert(mt.AddEntry(kit.Entry(a)) == nil, "first insert succeeds")
	sym.Assert(mt.AddEntry(kit.Entry(b)) == nil, "second insert succeeds")
	check(mt, mt.RootKey(), []merkletree.Data{a, b}, q, false)
}
