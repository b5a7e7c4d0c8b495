// Package c26 checks signatures.
package c26

import (
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"math/big"
	"strconv"

	"github.com/ethereum/go-ethereum/accounts"
	ethkeystore "github.com/ethereum/go-ethereum/accounts/keystore"
	ethcommon "github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/iden3/go-iden3-core/components/idensigner"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/crypto"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	_ "github.com/iden3/go-iden3-core/verifharness/model/keys"
	"github.com/iden3/go-iden3-core/verifharness/sym"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/constants"
)

var (
	_       = claims.NewClaimBasic
	params  = keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}
	secrets = []babyjub.PrivateKey{{1, 2, 3}, {4, 5, 6}}
)

// world is a key store with two unlocked keys.
func world() (*keystore.KeyStore, []babyjub.PublicKeyComp) {
	m := keystore.MemStorage{}
	ks, err := keystore.NewKeyStore(&m, params)
	sym.Assert(err == nil, "a store is opened")
	var pks []babyjub.PublicKeyComp
	for _, s := range secrets {
		pk, err := ks.ImportKey(s, []byte("p"))
		sym.Assert(err == nil, "a key is imported")
		sym.Assert(ks.UnlockKey(pk, []byte("p")) == nil, "a key is unlocked")
		pks = append(pks, *pk)
	}
	return ks, pks
}

func cat(l ...[]byte) (r []byte) {
	for _, b := range l {
		r = append(r, b...)
	}
	return r
}

func be(t int64) []byte {
	r := make([]byte, 8)
	for i := range r {
		r[i] = byte(uint64(t) >> uint(56-8*i))
	}
	return r
}

// padded tells whether two texts of the same number of field elements (31
// bytes) differ only in zeros after the shorter one.
func padded(a, b []byte) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	if len(a) == len(b) || (len(a)+30)/31 != (len(b)+30)/31 {
		return false
	}
	return sym.And(sym.EqBytes(a, b[:len(a)]), sym.EqBytes(b[len(a):], make([]byte, len(b)-len(a))))
}

// room is b in a buffer with room after it, and a copy of the buffer.
func room(b []byte) (s, buf, old []byte) {
	buf = append(cat(b), []byte("0123456789abcdef0123456789abcdef")...)
	return buf[:len(b)], buf, cat(buf)
}

const covers = "a signature is for its message, time and prefix only"
const zeros = "a message is not extended by zeros"

func prefix() []byte {
	p := make([]byte, []int{0, 1, 22, 53}[sym.Choose("prefix", 4)])
	for i := range p {
		p[i] = byte(i + 1)
	}
	if len(p) > 0 {
		p[0] = sym.U8("p")
	}
	return p
}

// A signature with prefix and time.
//
//verif:entry reach=same,other
func Dated() {
	ks, pks := world()
	t := sym.I64("t")
	sym.SetNow(t)
	p := prefix()
	m := sym.Bytes("m", sym.Choose("len", 3))
	ps, pbuf, pold := room(p)
	sig, date, err := ks.Sign(&pks[0], ps, m)
	sym.Assert(err == nil && date == t, "a message is signed at the time of the clock")
	sym.Assert(sym.EqBytes(pbuf, pold), "signing leaves the buffer of the caller alone")
	d := sym.I64("d")
	m2 := sym.Bytes("m2", sym.Choose("len2", 3))
	ok, err := keystore.VerifySignature(&pks[0], sig, ps, d, m2)
	sym.Assert(err == nil, "a signature is verified")
	sym.Assert(sym.EqBytes(pbuf, pold), "verifying leaves the buffer of the caller alone")
	a, b := cat(p, be(t), m), cat(p, be(d), m2)
	if sym.EqBytes(a, b) {
		sym.Assert(ok, "a signature verifies")
		ok, err = keystore.VerifySignatureRaw(&pks[0], sig, a)
		sym.Assert(err == nil && ok, "what is signed is the prefix, the date and the message")
		ok, err = keystore.VerifySignature(&pks[1], sig, ps, d, m2)
		sym.Assert(err == nil && !ok, "a signature is of its key only")
		sym.Reach("same")
		return
	}
	if padded(a, b) {
		sym.Assert(!ok, zeros)
		return
	}
	sym.Assert(!ok, covers)
	sym.Reach("other")
}

// A signature of bytes.
//
//verif:entry reach=same,other
func Raw() {
	ks, pks := world()
	n := []int{0, 1, 2, 30, 31, 32, 62, 63}
	m, m2 := text("m", n[sym.Choose("len", len(n))]), text("m2", n[sym.Choose("len2", len(n))])
	ms, buf, old := room(m)
	sig, err := ks.SignRaw(&pks[0], ms)
	sym.Assert(err == nil && sym.EqBytes(buf, old), "bytes are signed")
	ms, buf, old = room(m2)
	ok, err := keystore.VerifySignatureRaw(&pks[0], sig, ms)
	sym.Assert(err == nil && sym.EqBytes(buf, old), "a signature is verified")
	if sym.EqBytes(m, m2) {
		sym.Assert(ok, "a signature verifies")
		sym.Reach("same")
		return
	}
	if padded(m, m2) {
		sym.Assert(!ok, zeros)
		return
	}
	sym.Assert(!ok, covers)
	sym.Reach("other")
}

// text is of the length, arbitrary at its ends.
func text(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	if n > 0 {
		b[0] = sym.U8(name)
		b[n-1] = sym.U8(name)
	}
	return b
}

// A signature of a field element.
//
//verif:entry reach=same,other,altered,beyond
func Elements() {
	ks, pks := world()
	m := sym.Field("m")
	sig, err := ks.SignElem(&pks[0], m)
	sym.Assert(err == nil, "an element is signed")
	switch sym.Choose("how", 3) {
	case 0:
		o := sym.Field("o")
		ok, err := keystore.VerifySignatureElem(&pks[0], o, sig)
		sym.Assert(err == nil, "a signature is verified")
		if o.Cmp(m) == 0 {
			sym.Assert(ok, "a signature verifies")
			ok, err := keystore.VerifySignatureElem(&pks[1], o, sig)
			sym.Assert(err == nil && !ok, "a signature is of its key only")
			sym.Reach("same")
		} else {
			sym.Assert(!ok, covers)
			sym.Reach("other")
		}
	case 1:
		by := sym.U8("by")
		sym.Assume(by != 0)
		s := *sig
		s[sym.Choose("at", len(s))] ^= by
		ok, _ := keystore.VerifySignatureElem(&pks[0], m, &s)
		sym.Assert(!ok, "an altered signature is refused")
		sym.Reach("altered")
	case 2: // not an element
		x := sym.Big("x", 256)
		sym.Assume(x.Cmp(constants.Q) >= 0)
		ok, err := keystore.VerifySignatureElem(&pks[0], x, sig)
		sym.Assert(!ok && err != nil, "what is not an element is refused")
		s, err := ks.SignElem(&pks[0], x)
		sym.Assert(s == nil && err != nil, "what is not an element is refused")
		sym.Reach("beyond")
	}
}

// The signer of an identity.
//
//verif:entry reach=same,other
func Signer() {
	ks, pks := world()
	pk := *secrets[0].Public()
	s := idensigner.New(ks, pk)
	sym.Assert(s.PublicKey().Compress() == pks[0], "a signer has its key")
	t := sym.I64("t")
	sym.SetNow(t)
	n := []int{0, 1, 2, 22, 23, 24}
	m, m2 := text("m", n[sym.Choose("len", len(n))]), text("m2", n[sym.Choose("len2", len(n))])
	d := sym.I64("d")
	ms, buf, old := room(m)
	a, b := cat(m, be(t)), cat(m2, be(d))
	var sig *babyjub.SignatureComp
	var err error
	if sym.Choose("dated", 2) == 1 {
		var date int64
		sig, date, err = s.SignEthMsgDate(ms)
		sym.Assert(date == t, "a message is signed at the time of the clock")
	} else {
		a = m
		sig, err = s.SignEthMsg(ms)
	}
	sym.Assert(err == nil, "a message is signed")
	sym.Assert(sym.EqBytes(buf, old), "signing leaves the buffer of the caller alone")
	ok, err := keystore.VerifySignatureRaw(&pks[0], sig, b)
	sym.Assert(err == nil, "a signature is verified")
	if sym.EqBytes(a, b) {
		sym.Assert(ok, "a signature verifies")
		sym.Reach("same")
		return
	}
	if padded(a, b) {
		sym.Assert(!ok, zeros)
		return
	}
	sym.Assert(!ok, covers)
	sym.Reach("other")
}

func hash(name string) *merkletree.Hash {
	h := merkletree.Hash{}
	copy(h[:], sym.Bytes(name, 31))
	return &h
}

// The signatures of an issuer.
//
//verif:entry reach=same,other
func Issuer() {
	ks, pks := world()
	st := db.NewMemoryStorage()
	cfg := issuer.Config{MaxLevelsClaimsTree: 4, MaxLevelsRevocationTree: 4, MaxLevelsRootsTree: 4, GenesisOnly: true}
	_, err := issuer.Create(cfg, &pks[0], nil, st, ks)
	sym.Assert(err == nil, "an issuer is created")
	is, err := issuer.Load(st, ks, nil, nil, nil)
	sym.Assert(err == nil, "an issuer is loaded")
	if sym.Choose("what", 2) == 0 {
		p := prefix()
		m := sym.Bytes("m", sym.Choose("len", 3))
		ps, buf, old := room(p)
		sig, err := is.SignBinary(ps, m)
		sym.Assert(err == nil, "a message is signed")
		sym.Assert(sym.EqBytes(buf, old), "signing leaves the buffer of the caller alone")
		m2 := sym.Bytes("m2", sym.Choose("len2", 3))
		ok, err := keystore.VerifySignatureRaw(&pks[0], sig, cat(p, m2))
		sym.Assert(err == nil, "a signature is verified")
		switch {
		case sym.EqBytes(m, m2):
			sym.Assert(ok, "a signature verifies")
			sym.Reach("same")
		case padded(cat(p, m), cat(p, m2)):
			sym.Assert(!ok, zeros)
		default:
			sym.Assert(!ok, covers)
			sym.Reach("other")
		}
		return
	}
	a, b, c, d := hash("a"), hash("b"), hash("c"), hash("d")
	s1, err := is.SignState(a, b)
	sym.Assert(err == nil, "a transition is signed")
	s2, err := is.SignState(c, d)
	sym.Assert(err == nil, "a transition is signed")
	if sym.And(sym.EqBytes(a[:], c[:]), sym.EqBytes(b[:], d[:])) {
		sym.Assert(*s1 == *s2, "a transition has one signature")
		sym.Reach("same")
	} else {
		sym.Assert(*s1 != *s2, "a signature is of its transition only")
		sym.Reach("other")
	}
}

// Two at a time, while the clock ticks.
//
//verif:entry reach=ok preempt=2 yields=lock,go,append,time
func Together() {
	ks, pks := world()
	sym.SetNow(1000)
	how := sym.Choose("how", 3)
	buf := make([]byte, 40)
	p := buf[:3]
	sg := idensigner.New(ks, *secrets[0].Public())
	sign := func(m []byte) {
		var sig *babyjub.SignatureComp
		var d int64
		var err error
		if how == 2 {
			sig, d, err = sg.SignEthMsgDate(m)
			sym.Assert(err == nil, "a message is signed")
			ok, err := keystore.VerifySignatureRaw(&pks[0], sig, cat(m, be(d)))
			sym.Assert(err == nil && ok, "a signature verifies")
			return
		}
		sig, d, err = ks.Sign(&pks[0], p, m)
		sym.Assert(err == nil, "a message is signed")
		ok, err := keystore.VerifySignature(&pks[0], sig, p, d, m)
		sym.Assert(err == nil && ok, "a signature verifies")
	}
	sym.Go(func() { sign([]byte("one")) })
	if how == 0 {
		sym.Go(func() { sign([]byte("two")) })
	} else {
		sym.Go(func() { sym.SetNow(2000) })
	}
	sym.Wait()
	sym.Reach("ok")
}

// ---- signatures of Ethereum

type signed struct{ hash, sig, pub []byte }

var table []signed

func public(a ethcommon.Address) []byte {
	b := make([]byte, 65)
	b[0] = 4
	copy(b[13:], a[:])
	return b
}

//verif:model native (*github.com/ethereum/go-ethereum/accounts/keystore.KeyStore).SignHash
func signHash(ks *ethkeystore.KeyStore, a accounts.Account, hash []byte) ([]byte, error) {
	h := sha256.Sum256(cat([]byte{1}, a.Address[:], hash))
	g := sha256.Sum256(cat([]byte{2}, a.Address[:], hash))
	s := cat(h[:], g[:], []byte{h[0] & 1})
	table = append(table, signed{cat(hash), s, public(a.Address)})
	return cat(s), nil
}

//verif:model native github.com/ethereum/go-ethereum/crypto.Ecrecover
func ecrecover(hash, sig []byte) ([]byte, error) {
	if len(hash) != 32 || len(sig) != 65 || sig[64] > 3 {
		return nil, errors.New("signature model: bad signature")
	}
	for _, x := range table {
		if sym.And(sym.EqBytes(x.hash, hash), sym.EqBytes(x.sig, sig)) {
			return cat(x.pub), nil
		}
	}
	return public(ethcommon.Address{0xff, 0xff}), nil
}

//verif:model native github.com/ethereum/go-ethereum/crypto.UnmarshalPubkey
func unmarshalPubkey(b []byte) (*ecdsa.PublicKey, error) {
	return &ecdsa.PublicKey{X: new(big.Int).SetBytes(b[1:33]), Y: new(big.Int).SetBytes(b[33:])}, nil
}

//verif:model native github.com/ethereum/go-ethereum/crypto.PubkeyToAddress
func pubkeyToAddress(p ecdsa.PublicKey) ethcommon.Address {
	return ethcommon.BigToAddress(p.X)
}

var addrs = []ethcommon.Address{{1}, {2}}

// Messages of Ethereum.
//
//verif:entry reach=same,other,altered
func Eth() {
	n := []int{0, 1, 2, 9, 10, 11}
	m, m2 := text("m", n[sym.Choose("len", len(n))]), text("m2", n[sym.Choose("len2", len(n))])
	dated := sym.Choose("dated", 2) == 1
	a, b := m, m2
	t, d := sym.I64("t"), sym.I64("d")
	if dated {
		a, b = cat(m, be(t)), cat(m2, be(d))
	}
	sig, err := crypto.SignEthMsg(nil, accounts.Account{Address: addrs[0]}, a)
	sym.Assert(err == nil && (sig[64] == 27 || sig[64] == 28), "a message is signed")
	std := ethcrypto.Keccak256([]byte("\x19Ethereum Signed Message:\n"+strconv.Itoa(len(a))), a)
	sym.Assert(sym.EqBytes(table[len(table)-1].hash, std), "what is signed is the hash of an Ethereum message")
	by := byte(0)
	if len(m) == 1 && sym.Choose("altered", 2) == 1 {
		by = sym.U8("by")
		sig[sym.Choose("at", 65)] ^= by
	}
	who := sym.Choose("who", 2)
	old := *sig
	var ok bool
	if dated {
		ms, buf, o := room(m2)
		ok = crypto.VerifySigEthMsgDate(addrs[who], sig, ms, d)
		sym.Assert(sym.EqBytes(buf, o), "verifying leaves the buffer of the caller alone")
	} else {
		ok = crypto.VerifySigEthMsg(addrs[who], sig, m2)
	}
	sym.Assert(*sig == old, "verifying leaves the signature alone")
	switch {
	case by != 0:
		sym.Assert(!ok, "an altered signature is refused")
		sym.Reach("altered")
	case sym.EqBytes(a, b):
		sym.Assert(ok == (who == 0), "a signature verifies for its key only")
		sym.Reach("same")
	default:
		sym.Assert(!ok, "a signature is for its message and time only")
		sym.Reach("other")
	}
}

// Signatures of hashes.
//
//verif:entry reach=same,other
func Hashes() {
	var h, g crypto.Hash
	copy(h[:], sym.Bytes("h", 32))
	copy(g[:], sym.Bytes("g", 32))
	b, err := crypto.Sign(h, nil, accounts.Account{Address: addrs[0]})
	sym.Assert(err == nil && len(b) == 65, "a hash is signed")
	var s crypto.Signature
	copy(s[:], b)
	who := sym.Choose("who", 2)
	ok := crypto.VerifySig(addrs[who], &s, g[:])
	if sym.EqBytes(h[:], g[:]) {
		sym.Assert(ok == (who == 0), "a signature verifies for its key only")
		sym.Reach("same")
	} else {
		sym.Assert(!ok, "a signature is for its hash only")
		sym.Reach("other")
	}
	pk, err := crypto.GetPkFromKeyStore(nil, addrs[who])
	sym.Assert(err == nil && pubkeyToAddress(*pk) == addrs[who], "the key of an address is found")
}

// Signatures as JSON.
//
//verif:entry reach=ok
func JSON() {
	b := sym.Bytes("s", 65)
	var s, r crypto.Signature
	copy(s[:], b)
	j, err := json.Marshal(s)
	sym.Assert(err == nil && json.Unmarshal(j, &r) == nil && sym.EqBytes(r[:], b), "a signature is read back")
	var e, f crypto.SignatureEthMsg
	copy(e[:], b)
	j, err = json.Marshal(e)
	sym.Assert(err == nil && json.Unmarshal(j, &f) == nil && sym.EqBytes(f[:], b), "a signature is read back")
	x := sym.Bytes("x", []int{0, 1, 64, 66}[sym.Choose("len", 4)])
	t, err := json.Marshal(crypto.Hash{}.Hex()[:2] + hex(x))
	sym.Assert(err == nil && json.Unmarshal(t, &r) != nil && json.Unmarshal(t, &f) != nil, "a signature of another length is refused")
	sym.Reach("ok")
}

func hex(b []byte) string {
	const d = "0123456789abcdef"
	r := ""
	for range b {
		r += d[:2]
	}
	return r
}
