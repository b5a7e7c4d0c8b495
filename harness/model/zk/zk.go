// Package zkmodel stands for the zk files, the witness calculator, the prover
// and the verifier: a proof carries nothing and is valid when Valid says so.
package zkmodel

import (
	"errors"
	"math/big"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/constants"
)

// What the models answer and what they were given.
var (
	Valid      = true
	FailFiles  bool
	FailProof  bool
	Inputs     map[string]interface{} // of the last witness
	Signals    []*big.Int             // public signals of the next proof
	NumSignals = 1                    // that the verification key is for
	Verified   []*big.Int             // inputs of the last verification
)

var errModel = errors.New("zk model: failure")

//verif:model native (*github.com/iden3/go-iden3-core/utils/zk.ZkFiles).LoadAll
func loadAll(z *zkutils.ZkFiles) error {
	if FailFiles {
		return errModel
	}
	return nil
}

//verif:model native (*github.com/iden3/go-iden3-core/utils/zk.ZkFiles).ProvingKey
func provingKey(z *zkutils.ZkFiles) (*zktypes.Pk, error) {
	if FailFiles {
		return nil, errModel
	}
	return &zktypes.Pk{}, nil
}

//verif:model native (*github.com/iden3/go-iden3-core/utils/zk.ZkFiles).VerificationKey
func verificationKey(z *zkutils.ZkFiles) (*zktypes.Vk, error) {
	if FailFiles {
		return nil, errModel
	}
	return &zktypes.Vk{}, nil
}

//verif:model native (*github.com/iden3/go-iden3-core/utils/zk.ZkFiles).WitnessCalcWASM
func witnessCalcWASM(z *zkutils.ZkFiles) ([]byte, error) {
	if FailFiles {
		return nil, errModel
	}
	return []byte{}, nil
}

//verif:model native github.com/iden3/go-circom-witnesscalc.CalculateWitnessBinWASM
func calculateWitness(wasm []byte, inputs map[string]interface{}) ([]*big.Int, error) {
	Inputs = inputs
	return []*big.Int{}, nil
}

//verif:model native github.com/iden3/go-circom-prover-verifier/prover.GenerateProof
func generateProof(pk *zktypes.Pk, w zktypes.Witness) (*zktypes.Proof, []*big.Int, error) {
	if FailProof {
		return nil, nil, errModel
	}
	return &zktypes.Proof{}, Signals, nil
}

//verif:model native github.com/iden3/go-circom-prover-verifier/verifier.Verify
func verify(vk *zktypes.Vk, proof *zktypes.Proof, inputs []*big.Int) bool {
	Verified = inputs
	for _, i := range inputs {
		if i.Cmp(constants.Q) >= 0 {
			return false
		}
	}
	return Valid && len(inputs) == NumSignals
}
