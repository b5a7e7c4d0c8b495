package c04

import (
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

// proof is an arbitrary proof of at most maxDepth levels, as an adversary may
// encode it.
func proof(maxDepth int) (*merkletree.Proof, bool) {
	depth := sym.Choose("depth", maxDepth+1)
	var bs []byte
	flags := byte(sym.Choose("flags", 4))
	bs = append(bs, flags, byte(depth))
	bits := make([]byte, 30)
	nz := 0
	for i := 0; i < depth; i++ {
		if sym.Choose("sib", 2) == 1 {
			bits[29-i/8] |= 1 << uint(i%8)
			nz++
		}
	}
	bs = append(bs, bits...)
	for i := 0; i < nz; i++ {
		bs = append(bs, sym.Bytes("sibling", 32)...)
	}
	if flags == 3 {
		bs = append(bs, sym.Bytes("aux", 64)...)
	}
	p, err := merkletree.NewProofFromBytes(bs)
	if err != nil {
		return nil, false
	}
	return p, true
}

func sound(n, levels, maxDepth int) {
	mt, _ := kit.Tree(levels)
	names := []string{"a", "b", "c"}
	var have []merkletree.Data
	for i := 0; i < n; i++ {
		d := kit.Data2(names[i])
		if mt.AddEntry(kit.Entry(d)) == nil {
			have = append(have, d)
		}
	}
	p, ok := proof(maxDepth)
	if !ok {
		return
	}
	var hi, hv merkletree.Hash
	copy(hi[:], sym.Bytes("hi", 32))
	copy(hv[:], sym.Bytes("hv", 32))
	if !merkletree.VerifyProof(mt.RootKey(), p, &hi, &hv) {
		sym.Reach("rejected")
		return
	}
	inI, inB := false, false
	for _, d := range have {
		ei := kit.EqHash(kit.Hi(d), &hi)
		inI = sym.Or(inI, ei)
		inB = sym.Or(inB, sym.And(ei, kit.EqHash(kit.Hv(d), &hv)))
	}
	if p.Existence {
		sym.Reach("existence")
		sym.Assert(inB, "a verified existence proof means the entry is in the tree")
	} else {
		sym.Reach("nonexistence")
		sym.Assert(!inI, "a verified non-existence proof means the index is not in the tree")
	}
}

// Empty tree and one entry.
//
//verif:entry reach=existence,nonexistence,rejected depth=2
func Small() { sound(sym.Choose("n", 2), 3, sym.Param("depth", 2)) }

// Two entries.
//
//verif:entry reach=existence,nonexistence,rejected levels=3 depth=3
func Two() { sound(2, sym.Param("levels", 3), sym.Param("depth", 3)) }

// Three entries.
//
//verif:entry reach=existence,nonexistence,rejected levels=3 depth=3 tier=thorough
func Three() { sound(3, sym.Param("levels", 3), sym.Param("depth", 3)) }

// A proof verifies under at most one root: two trees cannot share a proof of
// contradictory statements.
//
//verif:entry reach=both depth=3
func OneRoot() {
	p, ok := proof(sym.Param("depth", 3))
	if !ok {
		return
	}
	var r1, r2, hi, hv merkletree.Hash
	copy(r1[:], sym.Bytes("r1", 32))
	copy(r2[:], sym.Bytes("r2", 32))
	copy(hi[:], sym.Bytes("hi", 32))
	copy(hv[:], sym.Bytes("hv", 32))
	if merkletree.VerifyProof(&r1, p, &hi, &hv) && merkletree.VerifyProof(&r2, p, &hi, &hv) {
		sym.Reach("both")
		sym.Assert(kit.EqHash(&r1, &r2), "a proof verifies under one root only")
	}
}
