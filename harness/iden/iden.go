// Package iden is the surroundings of an issuer for harnesses: a chain with
// the rules of the contract, an off-chain publisher, and stand-ins for the
// keys, the zk proofs and the encoding of Ethereum transactions.
package iden

import (
	"bytes"
	"errors"
	"math/big"
	"strconv"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/chain"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	zkmodel "github.com/iden3/go-iden3-core/verifharness/model/zk"
	"github.com/iden3/go-iden3-core/verifharness/sym"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

//verif:model native (*github.com/iden3/go-iden3-core/keystore.KeyStore).ExportKey
func exportKey(ks *keystore.KeyStore, pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, error) {
	return &babyjub.PrivateKey{}, nil
}

//verif:model native (*github.com/iden3/go-iden3-crypto/babyjub.PrivateKey).Scalar
func scalar(k *babyjub.PrivateKey) *babyjub.PrivKeyScalar {
	return babyjub.NewPrivKeyScalar(big.NewInt(7))
}

//verif:model native (*github.com/iden3/go-iden3-crypto/babyjub.PublicKeyComp).Decompress
func decompress(p *babyjub.PublicKeyComp) (*babyjub.PublicKey, error) {
	return &babyjub.PublicKey{X: big.NewInt(11), Y: big.NewInt(22)}, nil
}

//verif:model native (*github.com/ethereum/go-ethereum/core/types.Transaction).MarshalJSON
func txMarshal(tx *types.Transaction) ([]byte, error) {
	return []byte(strconv.FormatUint(tx.Nonce(), 10)), nil
}

//verif:model native (*github.com/ethereum/go-ethereum/core/types.Transaction).UnmarshalJSON
func txUnmarshal(tx *types.Transaction, b []byte) error {
	n, err := strconv.ParseUint(string(b), 10, 64)
	if err != nil {
		return err
	}
	*tx = *NewTx(n)
	return nil
}

//verif:model native (*github.com/ethereum/go-ethereum/core/types.Transaction).Hash
func txHash(tx *types.Transaction) common.Hash { return common.Hash{} }

// NewTx is a transaction told apart by its nonce.
func NewTx(n uint64) *types.Transaction {
	return types.NewTransaction(n, common.Address{}, nil, 0, nil, nil)
}

// Chain follows the rules of the contract: the first state of an identity
// needs its genesis state, and every later one a proof from the current one.
type Chain struct {
	chain.Fixed
	Block  uint64
	Sent   []Sent
	Errs   map[string]bool // failing calls: send, lost, get, confirm, and fail for transactions
	Reject int             // transactions the contract would not take
}

// Sent is a transaction.
type Sent struct {
	ID    core.ID
	Init  bool
	Old   merkletree.Hash
	State merkletree.Hash
	Mined uint64 // block, 0 while pending
	Bad   bool
}

// ErrChain is a failure of the chain.
var ErrChain = errors.New("chain failure")

// Current is the state the chain holds for an identity.
func (c *Chain) Current(id *core.ID) *merkletree.Hash {
	h := merkletree.HashZero
	for i := range c.Records {
		if c.Records[i].ID == *id {
			h = c.Records[i].State
		}
	}
	return &h
}

func (c *Chain) GetState(id *core.ID) (*proof.IdenStateData, error) {
	if c.Errs["get"] {
		return nil, ErrChain
	}
	return c.Fixed.GetState(id)
}

func (c *Chain) ok(s *Sent) bool {
	cur := c.Current(&s.ID)
	if s.Init {
		return *cur == merkletree.HashZero && *core.IdGenesisFromIdenState(&s.Old) == s.ID
	}
	return *cur != merkletree.HashZero && *cur == s.Old
}

func in(name string) *big.Int {
	b, _ := zkmodel.Inputs[name].(*big.Int)
	if b == nil {
		return new(big.Int)
	}
	return b
}

func (c *Chain) send(s Sent) (*types.Transaction, error) {
	if c.Errs["send"] {
		return nil, ErrChain
	}
	old := merkletree.NewHashFromBigInt(in("oldIdState"))
	s.Old = *old
	if !c.ok(&s) || *merkletree.NewHashFromBigInt(in("newIdState")) != s.State || in("id").Cmp(s.ID.BigInt()) != 0 {
		c.Reject++
		return nil, errors.New("the contract refuses")
	}
	c.Sent = append(c.Sent, s)
	if c.Errs["lost"] {
		return nil, ErrChain
	}
	return NewTx(uint64(len(c.Sent))), nil
}

func (c *Chain) SetState(id *core.ID, state *merkletree.Hash, _ *zktypes.Proof) (*types.Transaction, error) {
	return c.send(Sent{ID: *id, State: *state})
}

func (c *Chain) InitState(id *core.ID, genesis *merkletree.Hash, state *merkletree.Hash, _ *zktypes.Proof) (*types.Transaction, error) {
	if *merkletree.NewHashFromBigInt(in("oldIdState")) != *genesis {
		c.Reject++
		return nil, errors.New("the contract refuses")
	}
	return c.send(Sent{ID: *id, Init: true, State: *state})
}

// Mine puts the pending transactions into a block.
func (c *Chain) Mine() {
	c.Block++
	for i := range c.Sent {
		s := &c.Sent[i]
		if s.Mined == 0 && !s.Bad {
			if c.Errs["fail"] || !c.ok(s) {
				s.Bad = true
				continue
			}
			s.Mined = c.Block
			c.Records = append(c.Records, chain.Record{ID: s.ID, Block: c.Block, Ts: int64(1000 * c.Block), State: s.State})
		}
	}
}

func (c *Chain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	if c.Errs["confirm"] {
		return nil, ErrChain
	}
	if tx == nil {
		return nil, errors.New("no transaction")
	}
	s := &c.Sent[tx.Nonce()-1]
	if s.Bad {
		return nil, eth.ErrReceiptStatusFailed
	}
	if s.Mined == 0 {
		return nil, eth.ErrReceiptNotReceived
	}
	return new(big.Int).SetUint64(c.Block - s.Mined), nil
}

var _ idenpubonchain.IdenPubOnChainer = (*Chain)(nil)

// Off is a place for off-chain public data.
type Off struct {
	Blobs []idenpuboffchain.PublicDataBlobs
	Fail  bool
}

// Publish keeps the data as it would go over the wire.
func (o *Off) Publish(id *core.ID, d *idenpuboffchain.PublicData) error {
	if o.Fail {
		return ErrChain
	}
	b := idenpuboffchain.PublicDataBlobs{IdenState: *d.IdenState, ClaimsTreeRoot: *d.ClaimsTreeRoot, RevocationsTreeRoot: *d.RevocationsTreeRoot, RootsTreeRoot: *d.RootsTreeRoot}
	var w bytes.Buffer
	if err := d.RevocationsTree.DumpTree(&w, d.RevocationsTreeRoot); err != nil {
		return err
	}
	b.RevocationsTree = append([]byte{}, w.Bytes()...)
	w.Reset()
	if err := d.RootsTree.DumpTree(&w, d.RootsTreeRoot); err != nil {
		return err
	}
	b.RootsTree = append([]byte{}, w.Bytes()...)
	o.Blobs = append(o.Blobs, b)
	return nil
}

func (o *Off) Url() string { return "off" }

// GetPublicData answers with what was published for a state.
func (o *Off) GetPublicData(url string, id *core.ID, state *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
	for i := len(o.Blobs) - 1; i >= 0; i-- {
		if o.Blobs[i].IdenState == *state {
			return idenpuboffchain.NewPublicDataFromBlobs(&o.Blobs[i])
		}
	}
	return nil, errors.New("no such state")
}

// Env is an issuer and what it works with.
type Env struct {
	St            db.Storage
	F             *kit.Faulty
	Chain         *Chain
	Off           *Off
	ID            *core.ID
	Is            *issuer.Issuer
	Cfg           issuer.Config
	Conf          *issuer.IdenStateZkProofConf
	N             int // claims issued
	claim0, root0 int // positions of the genesis leaves
}

// KOp is the operational key.
var KOp = babyjub.PublicKeyComp{1}

// at assumes that the path of a leaf begins with the bits of pos, so that
// leaves of different pos part at the first levels.
func (e *Env) at(hi *merkletree.Hash, pos int) {
	sym.AssumeFree(sym.And(kit.Bit(hi, 0) == (pos&1 != 0), kit.Bit(hi, 1) == (pos&2 != 0), kit.Bit(hi, 2) == (pos&4 != 0)))
}

func low(h *merkletree.Hash) int { return int(h[0] & 7) }

// New creates an issuer.
func New(cfg issuer.Config) *Env { return NewWith(cfg, nil) }

// NewWith creates an issuer with more claims in its genesis state.
func NewWith(cfg issuer.Config, extra []claims.Claimer) *Env {
	zkmodel.Valid, zkmodel.NumSignals, zkmodel.Signals = true, 3, []*big.Int{big.NewInt(0), big.NewInt(0), big.NewInt(0)}
	e := &Env{St: db.NewMemoryStorage(), Chain: &Chain{Errs: map[string]bool{}}, Off: &Off{}, Cfg: cfg}
	e.F = kit.NewFaulty(e.St)
	e.Conf = &issuer.IdenStateZkProofConf{Levels: 16}
	k, _ := KOp.Decompress()
	d := claims.NewClaimKeyBabyJub(k, claims.BabyJubKeyTypeAuthorizeKSign).Entry().Data
	e.claim0 = low(kit.Hi(d))
	// the root of a tree of one leaf is the key of the leaf
	r, err := merkletree.LeafKey(kit.Hi(d), kit.Hv(d))
	if err != nil {
		panic(err)
	}
	e.root0 = low(kit.Hi(claims.NewLeafRootsTree(*r).Entry().Data))
	id, err := issuer.Create(cfg, &KOp, extra, e.F, nil)
	sym.Assert(err == nil, "an issuer is created")
	e.ID = id
	return e
}

// Load opens the issuer.
func (e *Env) Load() error {
	is, err := issuer.Load(e.F, nil, e.Chain, e.Conf, e.Off)
	if err == nil {
		e.Is = is
	}
	return err
}

// Claim is an arbitrary claim for the position.
func (e *Env) Claim(name string) *claims.ClaimBasic {
	var i [claims.IndexSlotLen]byte
	var v [claims.ValueSlotLen]byte
	copy(i[:], sym.Bytes(name+".i", 8))
	copy(v[:], sym.Bytes(name+".v", 8))
	return claims.NewClaimBasic(i, v)
}

// Place gives the claim the next position in the claims tree.
func (e *Env) Place(c claims.Claimer, pos int) {
	e.at(kit.Hi(c.Entry().Data), e.claim0+pos)
}

// Publish publishes the state, giving the root of the claims tree the
// position of its number of claims.
func (e *Env) Publish() error {
	_, r := e.Is.State()
	if e.N > 0 {
		e.at(kit.Hi(claims.NewLeafRootsTree(*r.ClaimsTreeRoot).Entry().Data), e.root0+e.N)
	}
	return e.Is.PublishState()
}

// At assumes a position for a leaf.
func (e *Env) At(hi *merkletree.Hash, pos int) { e.at(hi, pos) }

// Root0 is the position of the genesis leaf of the roots tree.
func (e *Env) Root0() int { return e.root0 }
