package sym

import (
	"math/big"

	"github.com/iden3/go-iden3-crypto/poseidon"
)

func init() {
	install = func(f func(fn string, xs []*big.Int) *big.Int) { poseidon.VerifTable = f }
}
