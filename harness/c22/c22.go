// Package c22 checks the key-value storages against a plain list of writes.
package c22

import (
	"bytes"
	"encoding/json"

	"github.com/iden3/go-iden3-core/db"
	_ "github.com/iden3/go-iden3-core/verifharness/model/leveldb"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func open(kind int) db.Storage {
	if kind == 0 {
		return db.NewMemoryStorage()
	}
	st, err := db.NewLevelDbStorage(sym.Scratch("ldb"), false)
	sym.Assert(err == nil, "a storage opens")
	return st
}

// ref is the reference: full keys with their latest values.
type ref struct{ kvs []db.KV }

func cp(b []byte) []byte { return append([]byte{}, b...) }

func (r *ref) put(prefix, k, v []byte) {
	f := append(cp(prefix), k...)
	for i := range r.kvs {
		if bytes.Equal(r.kvs[i].K, f) {
			r.kvs[i].V = cp(v)
			return
		}
	}
	r.kvs = append(r.kvs, db.KV{K: f, V: cp(v)})
}

func (r *ref) get(prefix, k []byte) ([]byte, bool) {
	f := append(cp(prefix), k...)
	for _, e := range r.kvs {
		if bytes.Equal(e.K, f) {
			return e.V, true
		}
	}
	return nil, false
}

// under lists, in byte order of the local keys, what a prefix holds.
func (r *ref) under(prefix []byte) []db.KV {
	var l []db.KV
	for _, e := range r.kvs {
		if len(e.K) < len(prefix) || !bytes.Equal(e.K[:len(prefix)], prefix) {
			continue
		}
		n := db.KV{K: e.K[len(prefix):], V: e.V}
		i := len(l)
		l = append(l, n)
		for ; i > 0 && bytes.Compare(l[i].K, l[i-1].K) < 0; i-- {
			l[i], l[i-1] = l[i-1], l[i]
		}
	}
	return l
}

func same(a, b []db.KV) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.EqBytes(a[i].K, b[i].K), sym.EqBytes(a[i].V, b[i].V))
	}
	return ok
}

type view struct {
	st     db.Storage
	prefix []byte
}

func (v view) check(r *ref, k []byte) {
	got, err := v.st.Get(k)
	want, ok := r.get(v.prefix, k)
	if ok {
		sym.Assert(err == nil, "a committed key is found")
		sym.Assert(sym.EqBytes(got, want), "a committed write is what is read")
	} else {
		sym.Assert(err == db.ErrNotFound, "a key that was not written is not found")
	}
}

func (v view) list(r *ref) {
	want := r.under(v.prefix)
	for lim := 0; lim <= len(want)+1; lim++ {
		w := want
		if lim > 0 && lim < len(want) {
			w = want[:lim]
		}
		got, err := v.st.List(lim)
		sym.Assert(err == nil, "a view is listed")
		sym.Assert(same(got, w), "a listing has each key of the view once, in order, up to the limit")
	}
	for stop := 0; stop <= len(want); stop++ {
		var got []db.KV
		err := v.st.Iterate(func(k, x []byte) (bool, error) {
			got = append(got, db.KV{K: cp(k), V: cp(x)})
			return len(got) < stop, nil
		})
		n := stop
		if n == 0 && len(want) > 0 {
			n = 1
		}
		sym.Assert(err == nil, "a view is iterated")
		sym.Assert(same(got, want[:n]), "an iteration has each key of the view once, in order, until it is stopped")
	}
}

func bs(n string, min, max int) []byte { return sym.Bytes(n, min+sym.Choose(n+".len", max-min+1)) }

// views are the root, a prefix, and two prefixes below it made from the same parent.
func views(st db.Storage) []view {
	p, q, s := bs("p", 1, 2), sym.Bytes("q", 1), sym.Bytes("s", 1)
	a := st.WithPrefix(p)
	b := a.WithPrefix(q)
	c := a.WithPrefix(s)
	return []view{{st, nil}, {a, p}, {b, append(cp(p), q...)}, {c, append(cp(p), s...)}}
}

// Writes through one view, seen through every other.
//
//verif:entry reach=memory,leveldb n=2
func Views() {
	kind := sym.Choose("storage", 2)
	st := open(kind)
	vs := views(st)
	r := &ref{}
	n := sym.Param("n", 2)
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		v := vs[sym.Choose("view", len(vs))]
		k := bs("k", 0, 1)
		if len(v.prefix) == 0 {
			k = append(k, sym.Bytes("k2", 1+sym.Choose("k2.len", 2))...)
		}
		x := sym.Bytes("v", 1)
		tx, err := v.st.NewTx()
		sym.Assert(err == nil, "a transaction starts")
		tx.Put(k, x)
		sym.Assert(tx.Commit() == nil, "a transaction commits")
		r.put(v.prefix, k, x)
	}
	v := vs[sym.Choose("read", len(vs))]
	if sym.Choose("list", 2) == 1 {
		v.list(r)
	} else {
		v.check(r, bs("query", 0, 2))
	}
	if kind == 0 {
		sym.Reach("memory")
	} else {
		sym.Reach("leveldb")
	}
}

// Transactions: own writes, isolation, merging, abandoning.
//
//verif:entry reach=committed,abandoned,merged n=2
func Transactions() {
	st := open(sym.Choose("storage", 2))
	p := sym.Bytes("p", sym.Choose("p.len", 2))
	v := view{st, nil}
	if len(p) > 0 {
		v = view{st.WithPrefix(p), p}
	}
	r := &ref{}
	if sym.Choose("first", 2) == 1 {
		tx, _ := v.st.NewTx()
		k, x := sym.Bytes("k0", 1), sym.Bytes("v0", 1)
		tx.Put(k, x)
		sym.Assert(tx.Commit() == nil, "a transaction commits")
		r.put(v.prefix, k, x)
	}
	txs := make([]db.Tx, 2)
	own := []*ref{{}, {}}
	for i := range txs {
		t, err := v.st.NewTx()
		sym.Assert(err == nil, "a transaction starts")
		txs[i] = t
	}
	n := sym.Param("n", 2)
	if sym.Thorough() {
		n = 3
	}
	q := sym.Bytes("query", 1)
	check := func(i int) {
		got, err := txs[i].Get(q)
		if w, ok := own[i].get(v.prefix, q); ok {
			sym.Assert(err == nil && sym.EqBytes(got, w), "a transaction sees its own writes")
		} else if w, ok := r.get(v.prefix, q); ok {
			sym.Assert(err == nil && sym.EqBytes(got, w), "a transaction sees the committed writes")
		} else {
			sym.Assert(err == db.ErrNotFound, "a transaction does not see another's writes")
		}
	}
	for i := 0; i < n; i++ {
		j := sym.Choose("tx", 2)
		if sym.Choose("op", 2) == 0 {
			k, x := sym.Bytes("k", 1), sym.Bytes("v", 1)
			txs[j].Put(k, x)
			own[j].put(v.prefix, k, x)
		} else {
			sym.Reach("merged")
			txs[j].Add(txs[1-j])
			for _, e := range own[1-j].kvs {
				own[j].put(nil, e.K, e.V)
			}
		}
	}
	check(0)
	check(1)
	v.check(r, q)
	commit := func(i int) {
		sym.Assert(txs[i].Commit() == nil, "a transaction commits")
		for _, e := range own[i].kvs {
			r.put(nil, e.K, e.V)
		}
	}
	switch sym.Choose("end", 4) {
	case 0:
		sym.Reach("committed")
		commit(0)
		check(1)
	case 1:
		commit(0)
		v.check(r, q)
		commit(1)
	case 2:
		sym.Reach("abandoned")
		txs[0].Close()
		commit(1)
	case 3:
		txs[0].Close()
		txs[1].Close()
		sym.Assert(txs[0].Commit() == nil, "a closed transaction commits nothing")
	}
	v.check(r, q)
	if n := len(r.under(v.prefix)); n < 3 {
		v.list(r)
	}
}

// The caller's buffers are the caller's.
//
//verif:entry reach=ok
func Buffers() {
	st := open(sym.Choose("storage", 2))
	p := sym.Bytes("p", 1)
	pre := cp(p)
	v := st.WithPrefix(p)
	p[0] ^= 0xff
	k, x := sym.Bytes("k", 2), sym.Bytes("v", 2)
	k0, x0 := cp(k), cp(x)
	tx, _ := v.NewTx()
	tx.Put(k, x)
	when := sym.Choose("when", 2)
	if when == 0 {
		k[0] ^= 0xff
		x[0] ^= 0xff
		got, err := tx.Get(k0)
		sym.Assert(err == nil && sym.EqBytes(got, x0), "a transaction keeps what was written to it")
	}
	sym.Assert(tx.Commit() == nil, "a transaction commits")
	if when == 1 {
		k[0] ^= 0xff
		x[0] ^= 0xff
	}
	got, err := v.Get(k0)
	sym.Assert(err == nil && sym.EqBytes(got, x0), "a committed write is kept whatever becomes of the caller's buffers")
	got[1] ^= 0xff
	l, err := st.List(0)
	sym.Assert(err == nil && len(l) == 1 && sym.EqBytes(l[0].K, append(cp(pre), k0...)) && sym.EqBytes(l[0].V, x0), "changing a read value changes nothing stored")
	l[0].V[0] ^= 0xff
	l[0].K[0] ^= 0xff
	got, err = v.Get(k0)
	sym.Assert(err == nil && sym.EqBytes(got, x0), "changing a listing changes nothing stored")
	sym.Reach("ok")
}

// A closed database serves the same when opened again.
//
//verif:entry reach=ok
func Reopen() {
	path := sym.Scratch("ldb")
	st, err := db.NewLevelDbStorage(path, false)
	sym.Assert(err == nil, "a storage opens")
	p := sym.Bytes("p", 1)
	v := st.WithPrefix(p)
	tx, _ := v.NewTx()
	k, x := sym.Bytes("k", 1), sym.Bytes("v", 2)
	tx.Put(k, x)
	sym.Assert(tx.Commit() == nil, "a transaction commits")
	tx2, _ := v.NewTx()
	tx2.Put(sym.Bytes("k2", 1), sym.Bytes("v2", 1))
	if sym.Choose("close", 2) == 1 {
		tx2.Close()
	}
	st.Close()
	st, err = db.NewLevelDbStorage(path, true)
	sym.Assert(err == nil, "a storage opens again")
	r := &ref{}
	r.put(p, k, x)
	w := view{st.WithPrefix(p), p}
	w.check(r, sym.Bytes("query", 1))
	w.list(r)
	view{st, nil}.list(r)
	sym.Assert(st.LevelDB() != nil, "the database is open")
	sym.Reach("ok")
	st.Close()
}

// Info is the summary of a storage.
//
//verif:entry reach=memory,leveldb
func Info() {
	kind := sym.Choose("storage", 2)
	st := open(kind)
	r := &ref{}
	for i, n := 0, sym.Choose("n", 3); i < n; i++ {
		tx, err := st.NewTx()
		sym.Assert(err == nil, "a transaction starts")
		k, x := sym.Bytes("k", 1), sym.Bytes("v", sym.Choose("v.len", 2))
		tx.Put(k, x)
		sym.Assert(tx.Commit() == nil, "a transaction commits")
		r.put(nil, k, x)
	}
	var s string
	sym.Assert(!sym.Catch(func() { s = st.Info() }), "a storage is summarised")
	if kind == 0 {
		sym.Reach("memory")
		return
	}
	var i struct{ KeyCount, ClaimCount int }
	sym.Assert(json.Unmarshal([]byte(s), &i) == nil, "the summary is JSON")
	sym.Assert(i.KeyCount == len(r.kvs), "the summary counts the keys")
	sym.Reach("leveldb")
}
