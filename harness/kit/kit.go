// Package kit has helpers shared by the harnesses.
package kit

import (
	"bytes"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

// Data is eight arbitrary field elements.
func Data(name string) (d merkletree.Data) {
	idx := [...]string{"0", "1", "2", "3", "4", "5", "6", "7"}
	for i := range d {
		d[i] = merkletree.ElemBytes(sym.Elem(name + "." + idx[i]))
	}
	return d
}

// Data2 is arbitrary data in one index and one value element, zero elsewhere.
func Data2(name string) (d merkletree.Data) {
	d[1] = merkletree.ElemBytes(sym.Elem(name + ".i"))
	d[6] = merkletree.ElemBytes(sym.Elem(name + ".v"))
	return d
}

// Entry wraps data in a fresh entry (no caches shared).
func Entry(d merkletree.Data) *merkletree.Entry { return &merkletree.Entry{Data: d} }

// Tree is an empty tree over fresh memory storage.
func Tree(levels int) (*merkletree.MerkleTree, db.Storage) {
	st := db.NewMemoryStorage()
	mt, err := merkletree.NewMerkleTree(st, levels)
	if err != nil {
		panic(err)
	}
	return mt, st
}

// Hi is the hash of the index of the data.
func Hi(d merkletree.Data) *merkletree.Hash {
	h, err := Entry(d).HIndex()
	if err != nil {
		panic(err)
	}
	return h
}

// Hv is the hash of the value of the data.
func Hv(d merkletree.Data) *merkletree.Hash {
	h, err := Entry(d).HValue()
	if err != nil {
		panic(err)
	}
	return h
}

// EqIndex tells whether two data have the same index part.
func EqIndex(a, b merkletree.Data) bool {
	ok := true
	for i := 0; i < merkletree.IndexLen; i++ {
		ok = sym.And(ok, sym.EqBytes(a[i][:], b[i][:]))
	}
	return ok
}

// EqData compares all eight elements.
func EqData(a, b merkletree.Data) bool {
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.EqBytes(a[i][:], b[i][:]))
	}
	return ok
}

// EqHash compares two hashes.
func EqHash(a, b *merkletree.Hash) bool { return sym.EqBytes(a[:], b[:]) }

// KVs lists a storage.
func KVs(st db.Storage) []db.KV {
	l, err := st.List(0)
	if err != nil {
		panic(err)
	}
	return l
}

// SameKVs compares two listings.
func SameKVs(a, b []db.KV) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.EqBytes(a[i].K, b[i].K), sym.EqBytes(a[i].V, b[i].V))
	}
	return ok
}

// Bit is bit n of a hash, little-endian.
func Bit(h *merkletree.Hash, n int) bool { return h[n/8]&(1<<uint(n%8)) != 0 }

var _ = bytes.Equal
