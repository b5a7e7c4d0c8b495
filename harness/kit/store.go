package kit

import (
	"errors"

	"github.com/iden3/go-iden3-core/db"
)

// ErrFault is the injected storage error.
var ErrFault = errors.New("injected storage fault")

// Faulty passes every operation to the inner storage, except the operation
// with number Fail (counted from 0 once Armed), which fails with no effect.
type Faulty struct {
	db.Storage
	S *FaultState
}

// FaultState is shared by a storage and its prefixed views.
type FaultState struct {
	Armed bool
	Ops   int
	Fail  int
	Hit   bool
}

func (s *FaultState) next() error {
	if !s.Armed {
		return nil
	}
	n := s.Ops
	s.Ops++
	if n == s.Fail {
		s.Hit = true
		return ErrFault
	}
	return nil
}

// NewFaulty wraps a storage.
func NewFaulty(in db.Storage) *Faulty { return &Faulty{in, &FaultState{Fail: -1}} }

func (f *Faulty) NewTx() (db.Tx, error) {
	if err := f.S.next(); err != nil {
		return nil, err
	}
	tx, err := f.Storage.NewTx()
	if err != nil {
		return nil, err
	}
	return &faultyTx{tx, f.S}, nil
}

func (f *Faulty) WithPrefix(p []byte) db.Storage { return &Faulty{f.Storage.WithPrefix(p), f.S} }

func (f *Faulty) Get(k []byte) ([]byte, error) {
	if err := f.S.next(); err != nil {
		return nil, err
	}
	return f.Storage.Get(k)
}

type faultyTx struct {
	db.Tx
	s *FaultState
}

func (t *faultyTx) Add(o db.Tx) {
	if f, ok := o.(*faultyTx); ok {
		o = f.Tx
	}
	t.Tx.Add(o)
}

func (t *faultyTx) Commit() error {
	if err := t.s.next(); err != nil {
		return err
	}
	return t.Tx.Commit()
}
