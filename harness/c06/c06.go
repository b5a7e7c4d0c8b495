package c06

import (
	"bytes"
	"encoding/json"
	"errors"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

var names = []string{"a", "b", "c"}

func fill(mt *merkletree.MerkleTree, n int) (have []merkletree.Data) {
	for i := 0; i < n; i++ {
		d := kit.Data(names[i])
		if mt.AddEntry(kit.Entry(d)) == nil {
			have = append(have, d)
		}
	}
	return
}

func holds(mt *merkletree.MerkleTree, have []merkletree.Data) {
	for _, h := range have {
		d, err := mt.GetDataByIndex(kit.Hi(h))
		sym.Assert(err == nil, "every dumped entry is found")
		sym.Assert(kit.EqData(*d, h), "dumped entries are unchanged")
	}
}

// Node dump, current or explicit root, imported and reopened.
//
//verif:entry reach=imported levels=4
func NodeDump() {
	levels := sym.Param("levels", 4)
	mt, _ := kit.Tree(levels)
	n := sym.Choose("n", 4)
	have := fill(mt, n)
	var root *merkletree.Hash
	if sym.Choose("explicit", 2) == 1 {
		root = mt.RootKey()
	}
	w := bytes.NewBuffer(nil)
	sym.Assert(mt.DumpTree(w, root) == nil, "the tree is dumped")
	st := db.NewMemoryStorage()
	m2, err := merkletree.NewMerkleTree(st, levels)
	sym.Assert(err == nil, "a fresh tree opens")
	sym.Assert(m2.ImportTree(bytes.NewReader(w.Bytes())) == nil, "the dump is imported")
	sym.Reach("imported")
	sym.Assert(kit.EqHash(m2.RootKey(), mt.RootKey()), "the imported tree has the same root")
	holds(m2, have)
	m3, err := merkletree.NewMerkleTree(st, levels)
	sym.Assert(err == nil, "the imported storage reopens")
	sym.Assert(kit.EqHash(m3.RootKey(), mt.RootKey()), "the reopened tree has the same root")
	holds(m3, have)
	if n == 3 {
		return
	}
	// the imported tree keeps working
	x := kit.Data2("x")
	e1, e2 := mt.AddEntry(kit.Entry(x)), m2.AddEntry(kit.Entry(x))
	sym.Assert((e1 == nil) == (e2 == nil), "both trees accept the same entries afterwards")
	sym.Assert(kit.EqHash(m2.RootKey(), mt.RootKey()), "both trees evolve alike")
}

// Dump of an earlier root.
//
//verif:entry reach=imported levels=4
func HistoricalDump() {
	levels := sym.Param("levels", 4)
	mt, _ := kit.Tree(levels)
	a, b := kit.Data2("a"), kit.Data2("b")
	sym.Assert(mt.AddEntry(kit.Entry(a)) == nil, "first insert succeeds")
	r := *mt.RootKey()
	if mt.AddEntry(kit.Entry(b)) != nil {
		return
	}
	w := bytes.NewBuffer(nil)
	sym.Assert(mt.DumpTree(w, &r) == nil, "the tree is dumped")
	m2, _ := kit.Tree(levels)
	sym.Assert(m2.ImportTree(w) == nil, "the dump is imported")
	sym.Reach("imported")
	sym.Assert(kit.EqHash(m2.RootKey(), &r), "the imported tree has the dumped root")
	holds(m2, []merkletree.Data{a})
	_, err := m2.GetDataByIndex(kit.Hi(b))
	sym.Assert(err == merkletree.ErrEntryIndexNotFound, "later entries are not in it")
}

// Claim dump.
//
//verif:entry reach=imported levels=4
func ClaimDump() {
	levels := sym.Param("levels", 4)
	mt, _ := kit.Tree(levels)
	have := fill(mt, sym.Choose("n", 4))
	root := mt.RootKey()
	cs, err := mt.DumpClaims(nil)
	sym.Assert(err == nil, "the claims are dumped")
	sym.Assert(len(cs) == len(have), "one claim per entry")
	m2, st := kit.Tree(levels)
	sym.Assert(m2.ImportDumpedClaims(cs) == nil, "the claims are imported")
	sym.Reach("imported")
	sym.Assert(kit.EqHash(m2.RootKey(), root), "the imported tree has the same root")
	holds(m2, have)
	m3, err := merkletree.NewMerkleTree(st, levels)
	sym.Assert(err == nil, "the imported storage reopens")
	sym.Assert(kit.EqHash(m3.RootKey(), root), "the reopened tree has the same root")
}

// A dump cut anywhere is refused and changes nothing.
//
//verif:entry reach=cut
func Truncated() {
	mt, _ := kit.Tree(4)
	n := sym.Choose("n", 3)
	fill(mt, n)
	w := bytes.NewBuffer(nil)
	sym.Assert(mt.DumpTree(w, nil) == nil, "the tree is dumped")
	full := w.Bytes()
	step := 1
	if !sym.Thorough() {
		step = 5
	}
	cut := sym.Choose("cut", (len(full)+step-1)/step) * step
	sym.Assume(cut < len(full))
	st := &watched{Storage: db.NewMemoryStorage()}
	m2, err := merkletree.NewMerkleTree(st, 4)
	sym.Assert(err == nil, "a fresh tree opens")
	c := kit.Data2("z")
	sym.Assert(m2.AddEntry(kit.Entry(c)) == nil, "first insert succeeds")
	root := *m2.RootKey()
	st.changed = false
	err = m2.ImportTree(bytes.NewReader(full[:cut]))
	sym.Reach("cut")
	sym.Assert(err != nil, "a dump that is cut short is refused")
	sym.Assert(!st.changed, "a refused dump leaves the storage")
	sym.Assert(kit.EqHash(m2.RootKey(), &root), "a refused dump leaves the root")
	m3, err := merkletree.NewMerkleTree(st, 4)
	sym.Assert(err == nil, "the storage reopens")
	sym.Assert(kit.EqHash(m3.RootKey(), &root), "a refused dump leaves the stored root")
	holds(m3, []merkletree.Data{c})
}

// watched is a storage that tells whether something was written to it that was
// not there.
type watched struct {
	db.Storage
	changed bool
}

type watchedTx struct {
	db.Tx
	w    *watched
	k, v [][]byte
}

func (w *watched) NewTx() (db.Tx, error) {
	tx, err := w.Storage.NewTx()
	return &watchedTx{Tx: tx, w: w}, err
}

func (t *watchedTx) Put(k, v []byte) {
	t.k, t.v = append(t.k, append([]byte{}, k...)), append(t.v, append([]byte{}, v...))
	t.Tx.Put(k, v)
}

func (t *watchedTx) Add(o db.Tx) {
	if x, ok := o.(*watchedTx); ok {
		t.k, t.v = append(t.k, x.k...), append(t.v, x.v...)
		o = x.Tx
	}
	t.Tx.Add(o)
}

func (t *watchedTx) Commit() error {
	for i, k := range t.k {
		v, err := t.w.Get(k)
		if err != nil || !bytes.Equal(v, t.v[i]) {
			t.w.changed = true
		}
	}
	return t.Tx.Commit()
}

// A dump that could not be stored changes nothing, and may be imported again.
//
//verif:entry reach=fault
func ImportFault() {
	mt, _ := kit.Tree(4)
	have := fill(mt, sym.Choose("n", 3))
	w := bytes.NewBuffer(nil)
	sym.Assert(mt.DumpTree(w, nil) == nil, "the tree is dumped")
	st := &watched{Storage: db.NewMemoryStorage()}
	f := kit.NewFaulty(st)
	m2, err := merkletree.NewMerkleTree(f, 4)
	sym.Assert(err == nil, "a fresh tree opens")
	root := *m2.RootKey()
	st.changed = false
	f.S.Armed, f.S.Fail = true, sym.Choose("fail", 4)
	err = m2.ImportTree(bytes.NewReader(w.Bytes()))
	f.S.Armed = false
	if !f.S.Hit {
		return
	}
	sym.Reach("fault")
	if err != nil {
		sym.Assert(!st.changed, "a dump that is not stored leaves the storage")
		sym.Assert(kit.EqHash(m2.RootKey(), &root), "a dump that is not stored leaves the root")
		sym.Assert(m2.ImportTree(bytes.NewReader(w.Bytes())) == nil, "a dump is imported once the fault is gone")
	}
	sym.Assert(kit.EqHash(m2.RootKey(), mt.RootKey()), "the imported tree has the root of the dump")
	m3, err := merkletree.NewMerkleTree(st, 4)
	sym.Assert(err == nil, "the storage reopens")
	sym.Assert(kit.EqHash(m3.RootKey(), mt.RootKey()), "the stored tree has the root of the dump")
	holds(m3, have)
}

// Arbitrary records never crash the import, and what is refused changes nothing.
//
//verif:entry reach=error,ok
func Records() {
	var bs []byte
	// where the format puts the length of a value
	t0, _ := kit.Tree(4)
	w := bytes.NewBuffer(nil)
	sym.Assert(t0.DumpTree(w, nil) == nil, "the empty tree is dumped")
	first := w.Bytes()[1] != 0
	n := 1 + sym.Choose("records", 2)
	if !sym.Thorough() {
		n = 1
	}
	for i := 0; i < n; i++ {
		kl := []int{0, 1, 11, 32}[sym.Choose("klen", 4)]
		vl := []int{0, 1, 31, 32, 33}[sym.Choose("vlen", 5)]
		if first {
			bs = append(bs, byte(kl), byte(vl), 0)
		} else {
			bs = append(bs, byte(kl), 0, byte(vl))
		}
		bs = append(bs, sym.Bytes("k", kl)...)
		bs = append(bs, sym.Bytes("v", vl)...)
	}
	bs = append(bs, sym.Bytes("tail", sym.Choose("tail", 3))...)
	m2, st := kit.Tree(4)
	root := *m2.RootKey()
	if err := m2.ImportTree(bytes.NewReader(bs)); err != nil {
		sym.Reach("error")
		sym.Assert(kit.EqHash(m2.RootKey(), &root), "a refused dump leaves the root")
	} else {
		sym.Reach("ok")
	}
	m3, err := merkletree.NewMerkleTree(st, 4)
	sym.Assert(err == nil, "the storage reopens")
	sym.Assert(kit.EqHash(m3.RootKey(), m2.RootKey()), "the stored root is the live root")
}

// A dump taken while entries are added is that of one root the tree had.
//
//verif:entry reach=imported preempt=2 yields=lock,go levels=4
func Concurrent() {
	levels := sym.Param("levels", 4)
	mt, _ := kit.Tree(levels)
	a, b := kit.Data2("a"), kit.Data2("b")
	sym.Assert(mt.AddEntry(kit.Entry(a)) == nil, "first insert succeeds")
	before := *mt.RootKey()
	claims := sym.Choose("claims", 2) == 1
	w := bytes.NewBuffer(nil)
	var cs []string
	var dumpErr, addErr error
	sym.Go(func() { addErr = mt.AddEntry(kit.Entry(b)) })
	sym.Go(func() {
		if claims {
			cs, dumpErr = mt.DumpClaims(nil)
		} else {
			dumpErr = mt.DumpTree(w, nil)
		}
	})
	sym.Wait()
	if addErr != nil {
		return
	}
	sym.Assert(dumpErr == nil, "the tree is dumped while it grows")
	m2, _ := kit.Tree(levels)
	if claims {
		sym.Assert(m2.ImportDumpedClaims(cs) == nil, "the claims are imported")
	} else {
		sym.Assert(m2.ImportTree(w) == nil, "the dump is imported")
	}
	sym.Reach("imported")
	if kit.EqHash(m2.RootKey(), &before) {
		holds(m2, []merkletree.Data{a})
		return
	}
	sym.Assert(kit.EqHash(m2.RootKey(), mt.RootKey()), "the dump has a root the tree had")
	holds(m2, []merkletree.Data{a, b})
}

// The claims written as JSON are those of the dump.
//
//verif:entry reach=written,unwritten
func ClaimsWritten() {
	mt, _ := kit.Tree(4)
	n := sym.Choose("n", 3)
	fill(mt, n)
	root := mt.RootKey()
	sym.Assume(mt.AddEntry(kit.Entry(kit.Data2("z"))) == nil)
	var at *merkletree.Hash
	if sym.Choose("at", 2) == 1 {
		at = root
	}
	want, err := mt.DumpClaims(at)
	sym.Assert(err == nil, "the claims are dumped")
	w := &limited{left: -1}
	sym.Assert(mt.DumpClaimsIoWriter(w, at) == nil, "the claims are written")
	var got []string
	sym.Assert(json.Unmarshal(w.b, &got) == nil, "the claims are written as JSON")
	sym.Assert(len(got) == len(want), "one text per claim")
	for i := range got {
		sym.Assert(len(got[i]) == len(want[i]) && sym.EqBytes([]byte(got[i]), []byte(want[i])), "the claims are those of the dump")
	}
	sym.Reach("written")
	// a writer that fails at some point
	full := len(w.b)
	w = &limited{left: sym.Choose("room", 4) * full / 4}
	sym.Assert(mt.DumpClaimsIoWriter(w, at) != nil, "claims that could not be written are an error")
	sym.Reach("unwritten")
}

// A tree whose dump could not be written.
//
//verif:entry reach=unwritten
func Unwritten() {
	mt, _ := kit.Tree(4)
	fill(mt, sym.Choose("n", 3))
	w := &limited{left: -1}
	sym.Assert(mt.DumpTree(w, nil) == nil, "the tree is dumped")
	w = &limited{left: sym.Choose("room", 8) * len(w.b) / 8}
	sym.Assert(mt.DumpTree(w, nil) != nil, "a dump that could not be written is an error")
	sym.Reach("unwritten")
}

// limited is a writer with room for some bytes; once it is full a write fails,
// though a later one that is shorter may fit.
type limited struct {
	b    []byte
	left int
}

func (l *limited) Write(b []byte) (int, error) {
	if l.left >= 0 {
		if len(b) > l.left {
			return 0, errors.New("full")
		}
		l.left -= len(b)
	}
	l.b = append(l.b, b...)
	return len(b), nil
}
