// Package bn stands for points of the pairing curve: a point is the bytes it
// is written as.
package bn

import (
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

var (
	g1s = map[*bn256.G1][]byte{}
	g2s = map[*bn256.G2][]byte{}
)

//verif:model native (*github.com/ethereum/go-ethereum/crypto/bn256/cloudflare.G1).Marshal
func g1Marshal(p *bn256.G1) []byte { return append([]byte{}, g1s[p]...) }

//verif:model native (*github.com/ethereum/go-ethereum/crypto/bn256/cloudflare.G2).Marshal
func g2Marshal(p *bn256.G2) []byte { return append([]byte{}, g2s[p]...) }

// G1 is a point with arbitrary coordinates.
func G1(name string) (*bn256.G1, []byte) {
	p, b := &bn256.G1{}, sym.Bytes(name, 64)
	g1s[p] = b
	return p, b
}

// G2 is a point with arbitrary coordinates.
func G2(name string) (*bn256.G2, []byte) {
	p, b := &bn256.G2{}, sym.Bytes(name, 128)
	g2s[p] = b
	return p, b
}

// Proof is a proof with arbitrary points, and their coordinates.
func Proof(name string) (*zktypes.Proof, [][]byte) {
	a, x := G1(name + ".a")
	b, y := G2(name + ".b")
	c, z := G1(name + ".c")
	var l [][]byte
	for _, s := range [][]byte{x, y, z} {
		for ; len(s) > 0; s = s[32:] {
			l = append(l, s[:32])
		}
	}
	return &zktypes.Proof{A: a, B: b, C: c}, l
}
