// Package c29 checks the queries and transactions to the state contract.
package c29

import (
	"context"
	"errors"
	"io"
	"math/big"
	"time"

	ethereum "github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/iden"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/model/bn"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

var errNode = errors.New("node failure")

// the node the client talks to
var node struct {
	addr     common.Address
	method   string
	params   []interface{}
	calls    int
	fail     bool // the next contract call fails
	block    uint64
	ts       uint64
	state    []byte
	price    *big.Int
	failGas  bool
	failKeys bool
	receipt  *types.Receipt
	polls    int // answers before there is a receipt
	step     int64
	head     *big.Int
	failHead bool
	opts     *bind.TransactOpts
	tx       *types.Transaction
}

//verif:model native github.com/ethereum/go-ethereum/accounts/abi.JSON
func abiJSON(reader io.Reader) (abi.ABI, error) { return abi.ABI{}, nil }

//verif:model native github.com/ethereum/go-ethereum/accounts/abi/bind.NewBoundContract
func newBoundContract(address common.Address, a abi.ABI, caller bind.ContractCaller, transactor bind.ContractTransactor, filterer bind.ContractFilterer) *bind.BoundContract {
	node.addr = address
	return &bind.BoundContract{}
}

//verif:model native (*github.com/ethereum/go-ethereum/accounts/abi/bind.BoundContract).Call
func contractCall(c *bind.BoundContract, opts *bind.CallOpts, result interface{}, method string, params ...interface{}) error {
	node.calls++
	node.method, node.params = method, params
	if node.fail {
		return errNode
	}
	out := *result.(*[]interface{})
	*out[0].(*uint64) = node.block
	*out[1].(*uint64) = node.ts
	*out[2].(**big.Int) = new(big.Int).SetBytes(node.state)
	return nil
}

//verif:model native (*github.com/ethereum/go-ethereum/accounts/abi/bind.BoundContract).Transact
func contractTransact(c *bind.BoundContract, opts *bind.TransactOpts, method string, params ...interface{}) (*types.Transaction, error) {
	node.calls++
	node.method, node.params, node.opts = method, params, opts
	if node.fail {
		return nil, errNode
	}
	return node.tx, nil
}

//verif:model native github.com/ethereum/go-ethereum/accounts/abi/bind.NewKeyStoreTransactor
func newTransactor(ks *keystore.KeyStore, account accounts.Account) (*bind.TransactOpts, error) {
	if node.failKeys {
		return nil, errNode
	}
	return &bind.TransactOpts{From: account.Address}, nil
}

//verif:model native (*github.com/ethereum/go-ethereum/ethclient.Client).SuggestGasPrice
func suggestGasPrice(ec *ethclient.Client, ctx context.Context) (*big.Int, error) {
	if node.failGas {
		return nil, errNode
	}
	return new(big.Int).Set(node.price), nil
}

//verif:model native (*github.com/ethereum/go-ethereum/ethclient.Client).TransactionReceipt
func transactionReceipt(ec *ethclient.Client, ctx context.Context, h common.Hash) (*types.Receipt, error) {
	node.polls--
	sym.SetNow(sym.Now() + node.step)
	if node.polls >= 0 || node.receipt == nil {
		return nil, ethereum.NotFound
	}
	return node.receipt, nil
}

//verif:model native (*github.com/ethereum/go-ethereum/ethclient.Client).HeaderByNumber
func headerByNumber(ec *ethclient.Client, ctx context.Context, number *big.Int) (*types.Header, error) {
	if node.failHead {
		return nil, errNode
	}
	return &types.Header{Number: new(big.Int).Set(node.head)}, nil
}

//verif:model context.WithTimeout
func withTimeout(c context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return c, func() {}
}

var addr = common.Address{1, 2, 3}

func open(acc bool) (*idenpubonchain.IdenPubOnChain, *eth.Client) {
	var a *accounts.Account
	if acc {
		a = &accounts.Account{Address: common.Address{7}}
	}
	c := eth.NewClient(&ethclient.Client{}, a, nil)
	return idenpubonchain.New(c, idenpubonchain.ContractAddresses{IdenStates: addr}), c
}

func id() *core.ID {
	var i core.ID
	copy(i[:], sym.Bytes("id", 31))
	return &i
}

// eqInt compares a parameter with the little-endian bytes of a number.
func eqInt(x interface{}, b []byte) bool {
	n, ok := x.(*big.Int)
	if !ok || n == nil {
		return false
	}
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return n.Cmp(new(big.Int).SetBytes(r)) == 0
}

func eqBig(n *big.Int, b []byte) bool { return n != nil && n.Cmp(new(big.Int).SetBytes(b)) == 0 }

// answer makes the contract's answer arbitrary.
func answer() (st merkletree.Hash) {
	node.block, node.ts = sym.U64("block"), sym.U64("ts")
	node.fail = sym.Choose("fail", 2) == 1
	switch sym.Choose("state", 3) {
	case 0:
		node.state = nil
	case 1: // a number of any size
		n := []int{1, 2, 31, 32}[sym.Choose("size", 4)]
		node.state = sym.Bytes("state", n)
		sym.Assume(node.state[0] != 0)
	case 2:
		e := sym.Elem("hash")
		sym.Assume(e[31] != 0)
		node.state = make([]byte, 32)
		for i := range e {
			node.state[31-i] = e[i]
		}
	}
	for i, b := range node.state {
		st[len(node.state)-1-i] = b
	}
	return st
}

// Queries of every kind, whatever the contract answers.
//
//verif:entry reach=found,none,mismatch,failed
func Queries() {
	ip, _ := open(sym.Choose("account", 2) == 1)
	i := id()
	st := answer()
	empty := len(node.state) == 0
	var d *proof.IdenStateData
	var err, none, other error
	method, exact := "", true
	var arg uint64
	args := 2
	switch sym.Choose("query", 5) {
	case 0:
		method, args, none = "getStateDataById", 1, idenpubonchain.ErrIdenNotOnChain
		d, err = ip.GetState(i)
	case 1:
		method, none = "getStateDataByBlock", idenpubonchain.ErrIdenNotOnChainOrBlockTooNew
		arg = sym.U64("q")
		d, err = ip.GetStateClosestToBlock(i, arg)
	case 2:
		method, none, other = "getStateDataByBlock", idenpubonchain.ErrIdenNotOnChainOrBlockTooNew, idenpubonchain.ErrIdenByBlockNotFound
		arg = sym.U64("q")
		exact = arg == node.block
		d, err = ip.GetStateByBlock(i, arg)
	case 3:
		method, none = "getStateDataByTime", idenpubonchain.ErrIdenNotOnChainOrTimeTooNew
		t := sym.I64("q")
		arg = uint64(t)
		d, err = ip.GetStateClosestToTime(i, t)
	case 4:
		method, none, other = "getStateDataByTime", idenpubonchain.ErrIdenNotOnChainOrTimeTooNew, idenpubonchain.ErrIdenByTimeNotFound
		t := sym.I64("q")
		arg = uint64(t)
		exact = t == int64(node.ts)
		d, err = ip.GetStateByTime(i, t)
	}
	sym.Assert(node.calls == 1 && node.method == method && node.addr == addr, "one query goes to the contract")
	sym.Assert(len(node.params) == args && eqInt(node.params[0], i[:]), "the query is for the identity")
	if args == 2 {
		q, ok := node.params[1].(uint64)
		sym.Assert(ok && q == arg, "the query is for the block or time")
	}
	switch {
	case node.fail:
		sym.Reach("failed")
		sym.Assert(err != nil && d == nil && err != none, "a failed query is an error")
	case empty:
		sym.Reach("none")
		sym.Assert(err == none && d == nil, "an identity without a state is not found")
	case !exact:
		sym.Reach("mismatch")
		sym.Assert(err == other && d == nil, "a state of another block or time is not the one asked for")
	default:
		sym.Reach("found")
		sym.Assert(err == nil && d.BlockN == node.block && d.BlockTs == int64(node.ts), "a state comes with its block and time")
		sym.Assert(kit.EqHash(d.IdenState, &st), "the state is the one recorded")
	}
}

// Transactions carry what they are for.
//
//verif:entry reach=sent,failed
func Transactions() {
	acc := sym.Choose("account", 2) == 1
	ip, _ := open(acc)
	i := id()
	h := func(n string) *merkletree.Hash {
		e := merkletree.Hash(sym.Elem(n))
		return &e
	}
	st, gen := h("state"), h("genesis")
	p, c := bn.Proof("proof")
	node.price = sym.Big("price", 64)
	node.tx = iden.NewTx(5)
	switch sym.Choose("fault", 4) {
	case 1:
		node.fail = true
	case 2:
		node.failGas = true
	case 3:
		node.failKeys = true
	}
	init := sym.Choose("init", 2) == 1
	var tx *types.Transaction
	var err error
	if init {
		tx, err = ip.InitState(i, gen, st, p)
	} else {
		tx, err = ip.SetState(i, st, p)
	}
	if !acc {
		sym.Reach("failed")
		sym.Assert(errors.Is(err, eth.ErrAccountNil) && tx == nil && node.calls == 0, "nothing is sent without an account")
		return
	}
	if node.fail || node.failGas || node.failKeys {
		sym.Reach("failed")
		sym.Assert(errors.Is(err, errNode) && tx == nil, "a failed transaction is an error")
		return
	}
	sym.Reach("sent")
	sym.Assert(err == nil && tx == node.tx && node.calls == 1 && node.addr == addr, "one transaction goes to the contract")
	k := 0
	if init {
		sym.Assert(node.method == "initState" && len(node.params) == 6, "a first state is initialised")
		sym.Assert(eqInt(node.params[1], gen[:]), "the genesis state is the one given")
		k = 1
	} else {
		sym.Assert(node.method == "setState" && len(node.params) == 5, "a later state is set")
	}
	sym.Assert(eqInt(node.params[0], st[:]), "the state sent is the one given")
	sym.Assert(eqInt(node.params[1+k], i[:]), "the identity is the one given")
	a, ok1 := node.params[2+k].([2]*big.Int)
	b, ok2 := node.params[3+k].([2][2]*big.Int)
	d, ok3 := node.params[4+k].([2]*big.Int)
	sym.Assert(ok1 && ok2 && ok3, "the proof has the contract's form")
	sym.Assert(sym.And(eqBig(a[0], c[0]), eqBig(a[1], c[1]), eqBig(b[0][0], c[2]), eqBig(b[0][1], c[3]), eqBig(b[1][0], c[4]), eqBig(b[1][1], c[5]), eqBig(d[0], c[6]), eqBig(d[1], c[7])), "the proof is the one given")
	sym.Assert(node.opts.From == common.Address{7}, "the transaction is from the account")
	sym.Assert(node.opts.Value != nil && node.opts.Value.Sign() == 0, "the transaction carries no value")
	sym.Assert(node.opts.GasPrice.Cmp(node.price) >= 0, "the price is at least the suggested one")
}

// Confirmations of a transaction.
//
//verif:entry reach=confirmed,failed,pending
func Confirmations() {
	ip, _ := open(true)
	n := sym.U64("included")
	more := sym.U64("more")
	node.head = new(big.Int).Add(new(big.Int).SetUint64(n), new(big.Int).SetUint64(more))
	status := sym.U64("status")
	sym.Assume(status < 2)
	there := sym.Choose("there", 2) == 1
	if there {
		node.receipt = &types.Receipt{Status: status, BlockNumber: new(big.Int).SetUint64(n)}
	}
	node.failHead = sym.Choose("fail", 2) == 1
	c, err := ip.TxConfirmBlocks(iden.NewTx(3))
	switch {
	case !there:
		sym.Reach("pending")
		sym.Assert(err == eth.ErrReceiptNotReceived && c == nil, "a pending transaction has no confirmations")
	case status == types.ReceiptStatusFailed:
		sym.Reach("failed")
		sym.Assert(err == eth.ErrReceiptStatusFailed && c == nil, "a failed transaction is an error")
	case node.failHead:
		sym.Assert(err != nil && c == nil, "a failed query is an error")
	default:
		sym.Reach("confirmed")
		sym.Assert(err == nil && c.Cmp(new(big.Int).SetUint64(more)) == 0, "the confirmations are the blocks since")
	}
}

// Waiting ends with the receipt or the time.
//
//verif:entry reach=received,late
func Wait() {
	_, c := open(true)
	node.step = 20
	node.polls = sym.Choose("polls", 6)
	status := sym.U64("status")
	sym.Assume(status < 2)
	node.receipt = &types.Receipt{Status: status, BlockNumber: big.NewInt(1)}
	c.ReceiptTimeout = 70 * time.Second
	r, err := c.WaitReceipt(iden.NewTx(3))
	if node.polls >= 0 {
		sym.Reach("late")
		sym.Assert(err == eth.ErrReceiptNotReceived && r == nil, "a wait that ran out is an error")
		return
	}
	sym.Reach("received")
	sym.Assert(r == node.receipt, "the receipt is returned")
	if status == types.ReceiptStatusFailed {
		sym.Assert(err == eth.ErrReceiptStatusFailed, "a failed transaction is an error")
	} else {
		sym.Assert(err == nil, "a transaction that succeeded is no error")
	}
}
