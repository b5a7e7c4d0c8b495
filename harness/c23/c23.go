// Package c23 checks persistent values, lists and JSON records.
package c23

import (
	"bytes"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	_ "github.com/iden3/go-iden3-core/verifharness/model/leveldb"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func cp(b []byte) []byte { return append([]byte{}, b...) }

func open() db.Storage {
	if sym.Choose("storage", 2) == 0 {
		return db.NewMemoryStorage()
	}
	st, err := db.NewLevelDbStorage(sym.Scratch("ldb"), false)
	sym.Assert(err == nil, "a storage opens")
	return st
}

func begin(st db.Storage) db.Tx {
	tx, err := st.NewTx()
	sym.Assert(err == nil, "a transaction starts")
	return tx
}

// Counters under different names.
//
//verif:entry reach=same,different
func Values() {
	st := open()
	n1, n2 := sym.Bytes("name1", 1+sym.Choose("l1", 2)), sym.Bytes("name2", 1+sym.Choose("l2", 2))
	a, b := db.NewStorageValue(n1), db.NewStorageValue(n2)
	tx := begin(st)
	_, err := a.Get(tx)
	sym.Assert(err == db.ErrNotFound, "a value that was not set is not found")
	x, y := sym.U32("x"), sym.U32("y")
	a.Set(tx, x)
	v, err := a.Get(tx)
	sym.Assert(err == nil && v == x, "a value reads back within the transaction")
	mid := sym.Choose("commit", 2) == 1
	if mid {
		sym.Assert(tx.Commit() == nil, "a transaction commits")
		tx = begin(st)
	}
	b.Set(tx, y)
	sym.Assert(tx.Commit() == nil, "a transaction commits")
	// another handle of the same name
	a2 := db.NewStorageValue(cp(n1))
	tx = begin(st)
	v, err = a2.Get(tx)
	if bytes.Equal(n1, n2) {
		sym.Reach("same")
		sym.Assert(err == nil && v == y, "a value is the last one set")
	} else {
		sym.Reach("different")
		sym.Assert(err == nil && v == x, "values of different names do not interfere")
	}
	v, err = b.Get(tx)
	sym.Assert(err == nil && v == y, "a value is the last one set")
}

type rec struct {
	A common.Hex
	N uint32
}

type entry struct {
	key []byte
	val rec
}

// Appends to two lists, whose names come from one buffer.
//
//verif:entry reach=ok n=2
func Lists() {
	st := open()
	// names with spare capacity, as a sub-slice of a bigger buffer has
	name := func(n string) []byte {
		b := make([]byte, 0, 64)
		return append(b, sym.Bytes(n, 2)...)
	}
	n1, n2 := name("name1"), name("name2")
	sym.Assume(!sym.EqBytes(n1, n2))
	lists := []*db.StorageList{db.NewStorageList(n1), db.NewStorageList(n2)}
	ref := make([][]entry, 2)
	tx := begin(st)
	lists[0].Init(tx)
	lists[1].Init(tx)
	n := sym.Param("n", 2)
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		j := sym.Choose("list", 2)
		k := sym.Bytes("key", 1+sym.Choose("klen", 2))
		v := rec{sym.Bytes("val", 1), sym.U32("num")}
		sym.Assert(lists[j].Append(tx, k, v) == nil, "an entry is appended")
		ref[j] = append(ref[j], entry{cp(k), v})
		if sym.Choose("commit", 2) == 1 {
			sym.Assert(tx.Commit() == nil, "a transaction commits")
			tx = begin(st)
		}
	}
	sym.Assert(tx.Commit() == nil, "a transaction commits")
	tx = begin(st)
	if sym.Choose("reopen", 2) == 1 {
		lists = []*db.StorageList{db.NewStorageList(cp(n1)), db.NewStorageList(cp(n2))}
	}
	for j, l := range lists {
		c, err := l.Length(tx)
		sym.Assert(err == nil && c == uint32(len(ref[j])), "the length is the number of appends")
		for i, e := range ref[j] {
			// the value under a key is the one appended last
			w := e.val
			for _, f := range ref[j][i+1:] {
				if bytes.Equal(f.key, e.key) {
					w = f.val
				}
			}
			var v rec
			k, err := l.GetByIdx(tx, uint32(i), &v)
			sym.Assert(err == nil && sym.EqBytes(k, e.key), "a position holds the key appended there")
			sym.Assert(sym.And(sym.EqBytes(v.A, w.A), v.N == w.N), "a position leads to the value of its key")
			var u rec
			sym.Assert(l.Get(tx, e.key, &u) == nil, "an appended key is found")
			sym.Assert(sym.And(sym.EqBytes(u.A, w.A), u.N == w.N), "a key holds the value appended last")
		}
		var v rec
		_, err = l.GetByIdx(tx, uint32(len(ref[j])), &v)
		sym.Assert(err == db.ErrNotFound, "a position beyond the end is not found")
		q := sym.Bytes("query", 1)
		known := false
		for _, e := range ref[j] {
			if bytes.Equal(e.key, q) {
				known = true
			}
		}
		if !known {
			sym.Assert(l.Get(tx, q, &v) == db.ErrNotFound, "a key that was not appended is not found")
		}
	}
	sym.Reach("ok")
}

// A list of any length, reached by setting the counter of its length; a list
// that keeps its length otherwise is left alone.
//
//verif:entry reach=start
func Long() {
	st := open()
	name := []byte("list:")
	l := db.NewStorageList(name)
	tx := begin(st)
	l.Init(tx)
	type kv struct {
		i uint32
		k []byte
		v rec
	}
	var all []kv
	add := func(i uint32) {
		k, v := sym.Bytes("k", 1), rec{sym.Bytes("a", 1), sym.U32("n")}
		for _, o := range all {
			sym.Assume(!sym.EqBytes(o.k, k))
		}
		sym.Assert(l.Append(tx, k, v) == nil, "an entry is appended")
		all = append(all, kv{i, k, v})
	}
	add(0)
	sym.Reach("start")
	start := sym.U32("start")
	sym.Assume(start >= 1 && start < 0xfffffff0)
	db.NewStorageValue(append(cp(name), "len"...)).Set(tx, start)
	if n, err := l.Length(tx); err != nil || n != start {
		return
	}
	add(start)
	if sym.Choose("commit", 2) == 1 {
		sym.Assert(tx.Commit() == nil, "a transaction commits")
		tx = begin(st)
	}
	add(start + 1)
	n, err := l.Length(tx)
	sym.Assert(err == nil && n == start+2, "the length is the number of appends")
	for _, e := range all {
		var v rec
		k, err := l.GetByIdx(tx, e.i, &v)
		sym.Assert(err == nil && sym.EqBytes(k, e.k), "a position holds the key appended there")
		sym.Assert(sym.And(sym.EqBytes(v.A, e.v.A), v.N == e.v.N), "a position leads to the value of its key")
	}
}

// An abandoned append leaves no trace.
//
//verif:entry reach=ok
func Abandoned() {
	st := open()
	l := db.NewStorageList([]byte("list:"))
	tx := begin(st)
	l.Init(tx)
	k, v := sym.Bytes("k", 2), rec{sym.Bytes("a", 2), 1}
	sym.Assert(l.Append(tx, k, v) == nil, "an entry is appended")
	sym.Assert(tx.Commit() == nil, "a transaction commits")
	tx = begin(st)
	sym.Assert(l.Append(tx, sym.Bytes("k2", 2), rec{sym.Bytes("b", 1), 2}) == nil, "an entry is appended")
	tx.Close()
	tx = begin(st)
	n, err := l.Length(tx)
	sym.Assert(err == nil && n == 1, "an abandoned append does not count")
	var u rec
	g, err := l.GetByIdx(tx, 0, &u)
	sym.Assert(err == nil && sym.EqBytes(g, k) && sym.EqBytes(u.A, v.A), "earlier entries stay")
	_, err = l.GetByIdx(tx, 1, &u)
	sym.Assert(err == db.ErrNotFound, "an abandoned append is not found")
	sym.Reach("ok")
}

// Records as the issuer stores them.
//
//verif:entry reach=ok
func JSON() {
	st := open()
	h := merkletree.Hash(sym.Elem("h"))
	d := proof.IdenStateData{BlockTs: sym.I64("ts"), BlockN: sym.U64("n"), IdenState: &h}
	var typ [2]byte
	var gen [27]byte
	copy(typ[:], sym.Bytes("typ", 2))
	copy(gen[:], sym.Bytes("gen", 27))
	id := core.NewID(typ, gen)
	sym.Assume(core.CheckChecksum(id))
	tx := begin(st)
	k1, k2 := sym.Bytes("k1", 1), sym.Bytes("k2", 1)
	sym.Assume(!sym.EqBytes(k1, k2))
	sym.Assert(db.StoreJSON(tx, k1, d) == nil, "a record is stored")
	sym.Assert(db.StoreJSON(tx, k2, &id) == nil, "a record is stored")
	var e proof.IdenStateData
	sym.Assert(db.LoadJSON(st, k1, &e) == db.ErrNotFound, "a record is not stored before the commit")
	sym.Assert(tx.Commit() == nil, "a transaction commits")
	sym.Assert(db.LoadJSON(st, k1, &e) == nil, "a record is loaded")
	sym.Assert(e.IdenState != nil && sym.And(e.BlockTs == d.BlockTs, e.BlockN == d.BlockN, kit.EqHash(e.IdenState, &h)), "a loaded record equals the stored one")
	var i core.ID
	sym.Assert(db.LoadJSON(st, k2, &i) == nil && sym.EqBytes(i[:], id[:]), "records under different keys do not interfere")
	sym.Reach("ok")
}
