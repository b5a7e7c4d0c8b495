// Package leveldbmodel stands for the goleveldb library: a map from keys to
// values in byte order that survives closing. Used by the engine only.
package leveldbmodel

import (
	"bytes"
	"errors"

	"github.com/syndtr/goleveldb/leveldb"
	lerrors "github.com/syndtr/goleveldb/leveldb/errors"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/util"
)

type kv struct{ k, v []byte }

type store struct {
	kvs  []kv // in key order
	open bool
}

var disk = map[string]*store{}
var open = map[*leveldb.DB]*store{}
var batches = map[*leveldb.Batch][]kv{}
var snaps = map[*leveldb.Snapshot][]kv{}

func cp(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

//verif:model github.com/syndtr/goleveldb/leveldb.OpenFile
func openFile(path string, o *opt.Options) (*leveldb.DB, error) {
	s := disk[path]
	if s == nil {
		if o != nil && o.ErrorIfMissing {
			return nil, errors.New("leveldb model: missing")
		}
		s = &store{}
		disk[path] = s
	}
	if s.open {
		return nil, errors.New("leveldb model: locked")
	}
	s.open = true
	d := new(leveldb.DB)
	open[d] = s
	return d, nil
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.DB).Close
func closeDB(d *leveldb.DB) error {
	s := open[d]
	if s == nil {
		return leveldb.ErrClosed
	}
	s.open = false
	delete(open, d)
	return nil
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.DB).Get
func get(d *leveldb.DB, key []byte, ro *opt.ReadOptions) ([]byte, error) {
	s := open[d]
	if s == nil {
		return nil, leveldb.ErrClosed
	}
	for _, e := range s.kvs {
		if bytes.Equal(e.k, key) {
			return cp(e.v), nil
		}
	}
	return nil, lerrors.ErrNotFound
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.DB).Has
func has(d *leveldb.DB, key []byte, ro *opt.ReadOptions) (bool, error) {
	_, err := get(d, key, ro)
	if err == lerrors.ErrNotFound {
		return false, nil
	}
	return err == nil, err
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.DB).Put
func put(d *leveldb.DB, key, value []byte, wo *opt.WriteOptions) error {
	s := open[d]
	if s == nil {
		return leveldb.ErrClosed
	}
	var r []kv
	done := false
	for _, e := range s.kvs {
		if !done {
			switch c := bytes.Compare(key, e.k); {
			case c < 0:
				r = append(r, kv{cp(key), cp(value)})
				done = true
			case c == 0:
				r = append(r, kv{cp(key), cp(value)})
				done = true
				continue
			}
		}
		r = append(r, e)
	}
	if !done {
		r = append(r, kv{cp(key), cp(value)})
	}
	s.kvs = r
	return nil
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.DB).Delete
func del(d *leveldb.DB, key []byte, wo *opt.WriteOptions) error {
	s := open[d]
	if s == nil {
		return leveldb.ErrClosed
	}
	var r []kv
	for _, e := range s.kvs {
		if !bytes.Equal(e.k, key) {
			r = append(r, e)
		}
	}
	s.kvs = r
	return nil
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.Batch).Put
func batchPut(b *leveldb.Batch, key, value []byte) {
	batches[b] = append(batches[b], kv{cp(key), cp(value)})
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.Batch).Reset
func batchReset(b *leveldb.Batch) { delete(batches, b) }

//verif:model (*github.com/syndtr/goleveldb/leveldb.Batch).Len
func batchLen(b *leveldb.Batch) int { return len(batches[b]) }

//verif:model (*github.com/syndtr/goleveldb/leveldb.DB).Write
func write(d *leveldb.DB, b *leveldb.Batch, wo *opt.WriteOptions) error {
	if open[d] == nil {
		return leveldb.ErrClosed
	}
	for _, e := range batches[b] {
		if err := put(d, e.k, e.v, wo); err != nil {
			return err
		}
	}
	return nil
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.DB).GetSnapshot
func snapshot(d *leveldb.DB) (*leveldb.Snapshot, error) {
	s := open[d]
	if s == nil {
		return nil, leveldb.ErrClosed
	}
	n := new(leveldb.Snapshot)
	snaps[n] = s.kvs
	return n, nil
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.Snapshot).Get
func snapGet(n *leveldb.Snapshot, key []byte, ro *opt.ReadOptions) ([]byte, error) {
	for _, e := range snaps[n] {
		if bytes.Equal(e.k, key) {
			return cp(e.v), nil
		}
	}
	return nil, lerrors.ErrNotFound
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.Snapshot).Release
func snapRelease(n *leveldb.Snapshot) { delete(snaps, n) }

//verif:model (*github.com/syndtr/goleveldb/leveldb.Snapshot).NewIterator
func snapIter(n *leveldb.Snapshot, slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	return newIter(snaps[n], slice)
}

//verif:model (*github.com/syndtr/goleveldb/leveldb.DB).NewIterator
func dbIter(d *leveldb.DB, slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	s := open[d]
	if s == nil {
		return &iter{err: leveldb.ErrClosed, at: -1}
	}
	return newIter(s.kvs, slice)
}

type iter struct {
	kvs []kv
	at  int
	rel bool
	err error
}

func newIter(kvs []kv, r *util.Range) iterator.Iterator {
	it := &iter{at: -1}
	for _, e := range kvs {
		if r != nil && r.Start != nil && bytes.Compare(e.k, r.Start) < 0 {
			continue
		}
		if r != nil && r.Limit != nil && bytes.Compare(e.k, r.Limit) >= 0 {
			continue
		}
		it.kvs = append(it.kvs, e)
	}
	return it
}

func (i *iter) usable() bool {
	if i.rel {
		i.err = iterator.ErrIterReleased
	}
	return i.err == nil
}
func (i *iter) Valid() bool { return !i.rel && i.at >= 0 && i.at < len(i.kvs) }
func (i *iter) move(n int) bool {
	if !i.usable() {
		return false
	}
	if n < -1 {
		n = -1
	}
	if n > len(i.kvs) {
		n = len(i.kvs)
	}
	i.at = n
	return i.Valid()
}
func (i *iter) First() bool { return i.move(0) }
func (i *iter) Last() bool  { return i.move(len(i.kvs) - 1) }
func (i *iter) Next() bool  { return i.move(i.at + 1) }
func (i *iter) Prev() bool  { return i.move(i.at - 1) }
func (i *iter) Seek(key []byte) bool {
	for j := range i.kvs {
		if bytes.Compare(i.kvs[j].k, key) >= 0 {
			return i.move(j)
		}
	}
	return i.move(len(i.kvs))
}

// Key and Value may be overwritten by the next movement, as in the library.
func (i *iter) Key() []byte {
	if !i.Valid() {
		return nil
	}
	return cp(i.kvs[i.at].k)
}
func (i *iter) Value() []byte {
	if !i.Valid() {
		return nil
	}
	return cp(i.kvs[i.at].v)
}
func (i *iter) Release()                    { i.rel = true }
func (i *iter) SetReleaser(r util.Releaser) {}
func (i *iter) Error() error                { return i.err }
