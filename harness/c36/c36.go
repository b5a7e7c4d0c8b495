// Package c36 checks that the in-process chain follows the contract.
package c36

import (
	"math/big"
	"strconv"
	"time"

	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	zkmodel "github.com/iden3/go-iden3-core/verifharness/model/zk"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

type record struct {
	state merkletree.Hash
	block uint64
	ts    int64
}

// identity is what the contract would hold of one.
type identity struct {
	id      core.ID
	done    []record
	pending []record
	init    bool // the first of pending is the first state
}

type world struct {
	o     *local.IdenPubOnChain
	ids   [2]*identity
	block uint64
	ts    int64
	n     int
}

func (w *world) state() *merkletree.Hash {
	h := merkletree.Hash(sym.Elem("s" + strconv.Itoa(w.n)))
	w.n++
	return &h
}

func elem(b []byte) *big.Int {
	var e merkletree.ElemBytes
	copy(e[:], b)
	return e.BigInt()
}

func (w *world) proved(i *identity, old, state *merkletree.Hash) {
	v := zkmodel.Verified
	sym.Assert(len(v) == 3, "a proof is of three values")
	sym.Assert(sym.And(v[0].Cmp(elem(i.id[:])) == 0, v[1].Cmp(old.BigInt()) == 0, v[2].Cmp(state.BigInt()) == 0), "a proof is checked for the identity, its state and the new one")
}

func (w *world) init(i *identity) {
	g, s := w.state(), w.state()
	was := *s
	id := i.id
	_, err := w.o.InitState(&id, g, s, &zktypes.Proof{})
	if len(i.done) > 0 || i.init {
		sym.Assert(err != nil, "an identity that has a state is not initialised")
		return
	}
	sym.Assert((err == nil) == zkmodel.Valid, "a first state needs a proof")
	if err != nil {
		return
	}
	w.proved(i, g, s)
	i.pending, i.init = append(i.pending, record{*s, w.block, w.ts}), true
	// the caller's values are its own
	id[3]++
	s[0]++
	sym.Assert(i.pending[0].state == was, "the state is kept")
}

func (w *world) set(i *identity) {
	s := w.state()
	id := i.id
	_, err := w.o.SetState(&id, s, &zktypes.Proof{})
	if len(i.done) == 0 {
		sym.Assert(err == idenpubonchain.ErrIdenNotOnChain, "an identity without a state is not updated")
		return
	}
	sym.Assert((err == nil) == zkmodel.Valid, "a state needs a proof")
	if err != nil {
		return
	}
	old := &i.done[len(i.done)-1].state
	if len(i.pending) > 0 {
		old = &i.pending[len(i.pending)-1].state
	}
	w.proved(i, old, s)
	i.pending = append(i.pending, record{*s, w.block, w.ts})
	id[3]++
	s[0]++
}

func (w *world) sync() {
	w.o.Sync()
	for _, i := range w.ids {
		i.done, i.pending, i.init = append(i.done, i.pending...), nil, false
	}
}

func (w *world) is(d *proof.IdenStateData, r *record) {
	sym.Assert(sym.And(d.BlockN == r.block, d.BlockTs == r.ts, kit.EqHash(d.IdenState, &r.state)), "the state is the one recorded, with its block and time")
}

func (w *world) check(i *identity) {
	d, err := w.o.GetState(&i.id)
	b, t := sym.U64("block"), sym.I64("time")
	db, errb := w.o.GetStateByBlock(&i.id, b)
	dt, errt := w.o.GetStateByTime(&i.id, t)
	if len(i.done) == 0 {
		sym.Assert(err == idenpubonchain.ErrIdenNotOnChain && errb == idenpubonchain.ErrIdenNotOnChain && errt == idenpubonchain.ErrIdenNotOnChain, "an identity without a state is not found")
		sym.Reach("none")
		return
	}
	sym.Assert(err == nil, "an identity is found")
	w.is(d, &i.done[len(i.done)-1])
	var rb, rt *record
	for k := range i.done {
		if i.done[k].block == b {
			rb = &i.done[k]
		}
		if i.done[k].ts == t {
			rt = &i.done[k]
		}
	}
	if rb == nil {
		sym.Assert(errb == idenpubonchain.ErrIdenByBlockNotFound, "no state of another block is found")
	} else {
		sym.Assert(errb == nil, "a state is found by its block")
		w.is(db, rb)
		sym.Reach("block")
	}
	if rt == nil {
		sym.Assert(errt == idenpubonchain.ErrIdenByTimeNotFound, "no state of another time is found")
	} else {
		sym.Assert(errt == nil, "a state is found by its time")
		w.is(dt, rt)
		sym.Reach("time")
	}
}

//verif:entry reach=none,block,time
func Histories() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	zkmodel.Valid, zkmodel.NumSignals = true, 3
	w := &world{block: 1000, ts: 1600000000}
	w.o = local.New(func() time.Time { return time.Unix(w.ts, 0) }, func() uint64 { return w.block }, &zktypes.Vk{})
	for k := range w.ids {
		w.ids[k] = &identity{id: core.ID{0, 0, byte(k)}}
	}
	refused := false
	for s := 0; s < n; s++ {
		op := sym.Choose("op", 5)
		switch op {
		case 0:
			w.init(w.ids[0])
		case 1:
			w.set(w.ids[0])
		case 2:
			w.sync()
			d, t := sym.U64("blocks"), sym.I64("secs")
			sym.Assume(sym.And(d < 1<<8, t >= 0, t < 1<<8))
			w.block, w.ts = w.block+d, w.ts+t
		case 3: // another identity
			if len(w.ids[1].done) == 0 && !w.ids[1].init {
				w.init(w.ids[1])
			} else {
				w.set(w.ids[1])
			}
		case 4: // a wrong proof
			sym.Assume(!refused)
			refused = true
			zkmodel.Valid = false
			if len(w.ids[0].done) == 0 {
				w.init(w.ids[0])
			} else {
				w.set(w.ids[0])
			}
			zkmodel.Valid = true
		}
	}
	w.check(w.ids[0])
	w.check(w.ids[1])
}

// Depth has the transactions of a state and one that follows.
//
//verif:entry reach=init,set
func Depth() {
	zkmodel.Valid, zkmodel.NumSignals = true, 3
	w := &world{block: uint64(sym.U32("block0")), ts: 1}
	w.o = local.New(func() time.Time { return time.Unix(w.ts, 0) }, func() uint64 { return w.block }, &zktypes.Vk{})
	id := core.ID{1}
	depth := func(tx *types.Transaction, at uint64) {
		w.block = at + uint64(sym.U16("later"))
		c, err := w.o.TxConfirmBlocks(tx)
		sym.Assert(err == nil && c.IsUint64() && c.Uint64() == w.block-at, "a transaction is as deep as blocks came since")
	}
	at := w.block
	tx, err := w.o.InitState(&id, w.state(), w.state(), &zktypes.Proof{})
	sym.Assert(err == nil, "a first state is sent")
	depth(tx, at)
	sym.Reach("init")
	w.o.Sync()
	if sym.Bool("set") {
		at = w.block
		tx, err = w.o.SetState(&id, w.state(), &zktypes.Proof{})
		sym.Assert(err == nil, "a state is sent")
		depth(tx, at)
		// as it is stored by an issuer
		sym.Assert(!sym.Catch(func() { tx.GasPrice(); tx.Value() }), "a transaction has the values a stored one must have")
		sym.Reach("set")
	}
}
