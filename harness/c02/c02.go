package c02

import (
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func distinct(ds []merkletree.Data) {
	for i := range ds {
		for j := 0; j < i; j++ {
			sym.Assume(!kit.EqIndex(ds[i], ds[j]))
		}
	}
}

func build(levels int, ds ...merkletree.Data) (*merkletree.MerkleTree, bool) {
	mt, _ := kit.Tree(levels)
	for _, d := range ds {
		if err := mt.AddEntry(kit.Entry(d)); err != nil {
			return mt, false
		}
	}
	return mt, true
}

// Order of two arbitrary entries.
//
//verif:entry reach=same levels=5
func OrderOfTwo() {
	levels := sym.Param("levels", 5)
	ds := []merkletree.Data{kit.Data("a"), kit.Data("b")}
	distinct(ds)
	m1, ok1 := build(levels, ds[0], ds[1])
	m2, ok2 := build(levels, ds[1], ds[0])
	sym.Assert(ok1 == ok2, "insertability does not depend on the order")
	if ok1 {
		sym.Reach("same")
		sym.Assert(kit.EqHash(m1.RootKey(), m2.RootKey()), "the root does not depend on the order")
	}
}

// Order of three entries.
//
//verif:entry reach=same levels=3
func OrderOfThree() {
	levels := sym.Param("levels", 3)
	ds := []merkletree.Data{kit.Data2("a"), kit.Data2("b"), kit.Data2("c")}
	distinct(ds)
	m1, ok1 := build(levels, ds[0], ds[1], ds[2])
	perm := [][3]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("perm", 5)]
	m2, ok2 := build(levels, ds[perm[0]], ds[perm[1]], ds[perm[2]])
	sym.Assert(ok1 == ok2, "insertability does not depend on the order")
	if ok1 {
		sym.Reach("same")
		sym.Assert(kit.EqHash(m1.RootKey(), m2.RootKey()), "the root does not depend on the order")
	}
}

// Four entries, two orders.
//
//verif:entry reach=same levels=3 tier=thorough
func OrderOfFour() {
	levels := sym.Param("levels", 3)
	ds := []merkletree.Data{kit.Data2("a"), kit.Data2("b"), kit.Data2("c"), kit.Data2("d")}
	distinct(ds)
	m1, ok1 := build(levels, ds[0], ds[1], ds[2], ds[3])
	m2, ok2 := build(levels, ds[3], ds[1], ds[2], ds[0])
	sym.Assert(ok1 == ok2, "insertability does not depend on the order")
	if ok1 {
		sym.Reach("same")
		sym.Assert(kit.EqHash(m1.RootKey(), m2.RootKey()), "the root does not depend on the order")
	}
}

// Trees with different entries have different roots (sizes 0 to 2, or 3).
//
//verif:entry reach=two,one,zero levels=3
func Binding() {
	levels := sym.Param("levels", 3)
	max := 2
	n1, n2 := sym.Choose("n1", max+1), sym.Choose("n2", max+1)
	names := []string{"0", "1", "2"}
	var s1, s2 []merkletree.Data
	for i := 0; i < n1; i++ {
		s1 = append(s1, kit.Data("x"+names[i]))
	}
	for i := 0; i < n2; i++ {
		s2 = append(s2, kit.Data("y"+names[i]))
	}
	distinct(s1)
	distinct(s2)
	m1, ok1 := build(levels, s1...)
	m2, ok2 := build(levels, s2...)
	if !ok1 || !ok2 {
		return
	}
	subset := func(a, b []merkletree.Data) bool {
		all := true
		for _, x := range a {
			some := false
			for _, y := range b {
				some = sym.Or(some, kit.EqData(x, y))
			}
			all = sym.And(all, some)
		}
		return all
	}
	if n1 == 2 && n2 == 2 {
		sym.Reach("two")
	} else if n1 == 1 && n2 == 1 {
		sym.Reach("one")
	} else if n1 == 0 && n2 == 0 {
		sym.Reach("zero")
	}
	same := sym.And(subset(s1, s2), subset(s2, s1))
	eq := kit.EqHash(m1.RootKey(), m2.RootKey())
	sym.Assert(sym.Or(!eq, same), "different entries give different roots")
	sym.Assert(sym.Or(!same, eq), "equal entries give equal roots")
	zero := kit.EqHash(m1.RootKey(), &merkletree.HashZero)
	sym.Assert(zero == (n1 == 0), "only the empty tree has the zero root")
}

// Refused inserts in between do not change the root.
//
//verif:entry reach=refused levels=4
func RefusedInserts() {
	levels := sym.Param("levels", 4)
	a, b, c := kit.Data2("a"), kit.Data2("b"), kit.Data2("c")
	mt, _ := kit.Tree(levels)
	ref, _ := kit.Tree(levels)
	for _, d := range []merkletree.Data{a, b, c} {
		if mt.AddEntry(kit.Entry(d)) == nil {
			sym.Assert(ref.AddEntry(kit.Entry(d)) == nil, "an insert accepted once is accepted again")
		} else {
			sym.Reach("refused")
		}
	}
	sym.Assert(kit.EqHash(mt.RootKey(), ref.RootKey()), "refused inserts do not show in the root")
}
