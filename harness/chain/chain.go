// Package chain is a chain that records identity states, as the smart
// contract does, for harnesses.
package chain

import (
	"errors"
	"math/big"

	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
)

// Record is a state of an identity on the chain.
type Record struct {
	ID    core.ID
	Block uint64
	Ts    int64
	State merkletree.Hash
}

// Fixed answers queries from its records, the last of an identity being its
// current one.
type Fixed struct {
	Records []Record
	Calls   int
}

var errFixed = errors.New("fixed chain")

func (c *Fixed) data(r *Record) *proof.IdenStateData {
	s := r.State
	return &proof.IdenStateData{BlockN: r.Block, BlockTs: r.Ts, IdenState: &s}
}

// GetState is the current state.
func (c *Fixed) GetState(id *core.ID) (*proof.IdenStateData, error) {
	c.Calls++
	for i := len(c.Records) - 1; i >= 0; i-- {
		if id != nil && c.Records[i].ID == *id {
			return c.data(&c.Records[i]), nil
		}
	}
	return nil, idenpubonchain.ErrIdenNotOnChain
}

// GetStateByBlock is the state recorded at exactly the block.
func (c *Fixed) GetStateByBlock(id *core.ID, blockN uint64) (*proof.IdenStateData, error) {
	c.Calls++
	for i := range c.Records {
		if id != nil && c.Records[i].ID == *id && c.Records[i].Block == blockN {
			return c.data(&c.Records[i]), nil
		}
	}
	return nil, idenpubonchain.ErrIdenByBlockNotFound
}

// GetStateByTime is the state recorded at exactly the time.
func (c *Fixed) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	c.Calls++
	for i := range c.Records {
		if id != nil && c.Records[i].ID == *id && c.Records[i].Ts == ts {
			return c.data(&c.Records[i]), nil
		}
	}
	return nil, idenpubonchain.ErrIdenByTimeNotFound
}

func (c *Fixed) SetState(*core.ID, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) {
	return nil, errFixed
}

func (c *Fixed) InitState(*core.ID, *merkletree.Hash, *merkletree.Hash, *zktypes.Proof) (*types.Transaction, error) {
	return nil, errFixed
}

func (c *Fixed) TxConfirmBlocks(*types.Transaction) (*big.Int, error) { return nil, errFixed }

var _ idenpubonchain.IdenPubOnChainer = (*Fixed)(nil)
