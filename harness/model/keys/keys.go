// Package keys stands for the cryptography of the key store: the curve and its
// signatures, the derivation of keys from passphrases and authenticated
// encryption. Signatures cannot be forged and a sealed box opens only with its
// key and nonce. A replay uses the real code.
package keys

import (
	"crypto/rand"
	"crypto/sha256"
	"errors"
	"io"
	"math/big"

	"github.com/iden3/go-iden3-core/verifharness/sym"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/constants"
	"github.com/iden3/go-iden3-crypto/poseidon"
	"golang.org/x/crypto/nacl/secretbox"
	"golang.org/x/crypto/scrypt"
)

var (
	_ = secretbox.Seal
	_ = scrypt.Key
)

type counter struct{ n byte }

// Read gives bytes that are never given again.
func (c *counter) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = c.n
	}
	c.n++
	return len(b), nil
}

func init() {
	if sym.Symbolic() {
		rand.Reader = &counter{1}
	}
}

//verif:model crypto/rand.Read
func randRead(b []byte) (int, error) { return io.ReadFull(rand.Reader, b) }

// ---- the curve

func hash(l ...*big.Int) *big.Int {
	var a [poseidon.T]*big.Int
	for i := range a {
		a[i] = new(big.Int)
		if i < len(l) {
			a[i] = l[i]
		}
	}
	h, err := poseidon.PoseidonHash(a)
	if err != nil {
		panic(err)
	}
	return h
}

func halves(k *babyjub.PrivateKey) (*big.Int, *big.Int) {
	return new(big.Int).SetBytes(k[:16]), new(big.Int).SetBytes(k[16:])
}

//verif:model (*github.com/iden3/go-iden3-crypto/babyjub.PrivateKey).Public
func public(k *babyjub.PrivateKey) *babyjub.PublicKey {
	a, b := halves(k)
	return &babyjub.PublicKey{X: new(big.Int), Y: hash(big.NewInt(1), a, b)}
}

type signed struct{ pk, msg, sig *big.Int }

var signatures []signed

//verif:model (*github.com/iden3/go-iden3-crypto/babyjub.PrivateKey).SignPoseidon
func sign(k *babyjub.PrivateKey, msg *big.Int) *babyjub.Signature {
	a, b := halves(k)
	s := hash(big.NewInt(2), a, b, msg)
	signatures = append(signatures, signed{hash(big.NewInt(1), a, b), msg, s})
	return &babyjub.Signature{R8: &babyjub.Point{X: new(big.Int), Y: s}, S: big.NewInt(7)}
}

//verif:model (*github.com/iden3/go-iden3-crypto/babyjub.PublicKey).VerifyPoseidon
func verify(p *babyjub.PublicKey, msg *big.Int, sig *babyjub.Signature) bool {
	if msg.Sign() < 0 || msg.Cmp(constants.Q) >= 0 {
		panic("inputs values not inside Finite Field")
	}
	if p.X.Sign() != 0 || sig.R8.X.Sign() != 0 || sig.S.Cmp(big.NewInt(7)) != 0 {
		return false
	}
	for _, s := range signatures {
		if s.pk.Cmp(p.Y) == 0 && s.msg.Cmp(msg) == 0 && s.sig.Cmp(sig.R8.Y) == 0 {
			return true
		}
	}
	return false
}

//verif:model (*github.com/iden3/go-iden3-crypto/babyjub.Point).Decompress
func decompress(p *babyjub.Point, b [32]byte) (*babyjub.Point, error) {
	p.X = new(big.Int)
	if b[31]&0x80 != 0 {
		p.X = new(big.Int).Sub(constants.Q, big.NewInt(1))
		b[31] &= 0x7f
	}
	var r [32]byte
	for i := range b {
		r[31-i] = b[i]
	}
	p.Y = new(big.Int).SetBytes(r[:])
	if p.Y.Cmp(constants.Q) >= 0 {
		return nil, errors.New("keys model: p.y >= Q")
	}
	return p, nil
}

// ---- encryption

// Trim is the part of a passphrase that the derivation of keys depends on: as
// in HMAC, a passphrase is filled with zeros.
func Trim(pass []byte) []byte {
	for len(pass) > 0 && pass[len(pass)-1] == 0 {
		pass = pass[:len(pass)-1]
	}
	return pass
}

//verif:model golang.org/x/crypto/scrypt.Key
func derive(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	if N <= 1 || N&(N-1) != 0 {
		return nil, errors.New("scrypt: N must be > 1 and a power of 2")
	}
	password = Trim(password)
	b := []byte{byte(len(password)), byte(len(salt)), byte(N), byte(N >> 8), byte(N >> 16), byte(r), byte(p)}
	b = append(append(b, password...), salt...)
	h := sha256.Sum256(b)
	return h[:keyLen], nil
}

type box struct {
	msg, out []byte
	nonce    [24]byte
	key      [32]byte
}

var boxes []box

const overhead = 16

//verif:model golang.org/x/crypto/nacl/secretbox.Seal
func seal(out, message []byte, nonce *[24]byte, key *[32]byte) []byte {
	b := make([]byte, overhead+len(message))
	for i := range b {
		b[i] = byte(0xa0 + len(boxes))
	}
	boxes = append(boxes, box{append([]byte{}, message...), b, *nonce, *key})
	return append(out, b...)
}

//verif:model golang.org/x/crypto/nacl/secretbox.Open
func open(out, b []byte, nonce *[24]byte, key *[32]byte) ([]byte, bool) {
	for _, x := range boxes {
		if len(x.out) == len(b) && sym.EqBytes(x.out, b) && sym.EqBytes(x.nonce[:], nonce[:]) && sym.EqBytes(x.key[:], key[:]) {
			return append(out, x.msg...), true
		}
	}
	return nil, false
}
