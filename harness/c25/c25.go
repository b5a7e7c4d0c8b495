// Package c25 checks the key store.
package c25

import (
	"bytes"
	"errors"
	"math/big"
	"os"
	"path"

	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/verifharness/model/disk"
	"github.com/iden3/go-iden3-core/verifharness/model/keys"
	"github.com/iden3/go-iden3-core/verifharness/sym"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

var (
	params  = keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}
	msg     = big.NewInt(5)
	errFail = errors.New("storage failure")
)

func pass(name string) []byte { return sym.Bytes(name, sym.Choose("len", 3)) }

// same tells whether two passphrases give the same key.
func same(a, b []byte) bool { return sym.EqBytes(keys.Trim(a), keys.Trim(b)) }

// What is encrypted is read back with its passphrase only, and unaltered.
//
//verif:entry reach=read,refused,altered
func Encrypted() {
	data := sym.Bytes("data", sym.Choose("size", 3))
	p := pass("pass")
	e, err := keystore.EncryptData(data, p, 2, 1)
	sym.Assert(err == nil, "data is encrypted")
	if sym.Choose("altered", 2) == 1 {
		by := sym.U8("by")
		sym.Assume(by != 0)
		f := [][]byte{e.Salt, e.Nonce, e.EncryptedData}[sym.Choose("field", 3)]
		f[sym.Choose("at", len(f))] ^= by
		d, err := keystore.DecryptData(e, p)
		sym.Assert(err != nil && d == nil, "altered data is refused")
		sym.Reach("altered")
		return
	}
	q := pass("other")
	d, err := keystore.DecryptData(e, q)
	if same(p, q) {
		sym.Assert(err == nil && sym.EqBytes(d, data), "data is read with its passphrase")
		sym.Reach("read")
	} else {
		sym.Assert(err != nil && d == nil, "data is not read with another passphrase")
		sym.Reach("refused")
	}
}

// Any key is kept.
//
//verif:entry reach=ok
func Kept() {
	var sk babyjub.PrivateKey
	copy(sk[:], sym.Bytes("key", 32))
	want := sk
	p := pass("pass")
	m := keystore.MemStorage{}
	ks, err := keystore.NewKeyStore(&m, params)
	sym.Assert(err == nil, "a store is opened")
	pk, err := ks.ImportKey(sk, p)
	sym.Assert(err == nil, "a key is imported")
	sym.Assert(*pk == want.Public().Compress(), "a key is known by its public key")
	if sym.Choose("reopen", 2) == 1 {
		sym.Assert(ks.Close() == nil, "a store is closed")
		ks, err = keystore.NewKeyStore(&m, params)
		sym.Assert(err == nil, "a store is opened again")
	}
	l := ks.Keys()
	sym.Assert(len(l) == 1 && l[0] == *pk, "a key is listed")
	_, err = ks.ExportKey(pk)
	sym.Assert(err != nil, "a locked key is not exported")
	sym.Assert(ks.UnlockKey(pk, p) == nil, "a key is unlocked")
	k, err := ks.ExportKey(pk)
	sym.Assert(err == nil && sym.EqBytes(k[:], want[:]), "a key is exported")
	sym.Reach("ok")
}

// A new key is as good as an imported one.
//
//verif:entry reach=ok
func New() {
	m := keystore.MemStorage{}
	ks, err := keystore.NewKeyStore(&m, params)
	sym.Assert(err == nil, "a store is opened")
	p := pass("pass")
	pk, err := ks.NewKey(p)
	sym.Assert(err == nil, "a key is made")
	pk2, err := ks.NewKey(p)
	sym.Assert(err == nil && *pk != *pk2, "keys are new")
	sym.Assert(len(ks.Keys()) == 2, "keys are listed")
	sym.Assert(ks.UnlockKey(pk, p) == nil, "a key is unlocked")
	k, err := ks.ExportKey(pk)
	sym.Assert(err == nil && k.Public().Compress() == *pk, "a key is known by its public key")
	_, err = ks.ExportKey(pk2)
	sym.Assert(err != nil, "the other key stays locked")
	sym.Reach("ok")
}

// store is a storage whose writes can fail.
type store struct {
	keystore.Storage
	fail bool
}

func (s *store) Write(b []byte) error {
	if s.fail {
		return errFail
	}
	return s.Storage.Write(b)
}

var secrets = []babyjub.PrivateKey{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}

type spec struct {
	stored   [2]bool
	pass     [2][]byte
	unlocked [2]bool
}

func list(ks *keystore.KeyStore, s *spec, pks []babyjub.PublicKeyComp) {
	l := ks.Keys()
	n := 0
	for i, pk := range pks {
		has := false
		for _, x := range l {
			has = has || x == pk
		}
		sym.Assert(has == s.stored[i], "the keys listed are those stored")
		if has {
			n++
		}
	}
	sym.Assert(len(l) == n, "the keys listed are those stored")
}

func unlock(ks *keystore.KeyStore, s *spec, pks []babyjub.PublicKeyComp, k int, p []byte) {
	err := ks.UnlockKey(&pks[k], p)
	if s.stored[k] && same(p, s.pass[k]) {
		sym.Assert(err == nil, "a key is unlocked by its passphrase")
		s.unlocked[k] = true
	} else {
		sym.Assert(err != nil, "a key is not unlocked by another passphrase")
	}
}

func use(ks *keystore.KeyStore, s *spec, pks []babyjub.PublicKeyComp, k int) {
	sig, err := ks.SignElem(&pks[k], msg)
	sym.Assert((err == nil) == s.unlocked[k], "a key signs exactly while it is unlocked")
	if err == nil {
		ok, err := keystore.VerifySignatureElem(&pks[k], msg, sig)
		sym.Assert(ok && err == nil, "a key makes its own signatures")
	}
	sk, err := ks.ExportKey(&pks[k])
	sym.Assert((err == nil) == s.unlocked[k], "a key is exported exactly while it is unlocked")
	if err == nil {
		sym.Assert(*sk == secrets[k], "a key is exported")
	}
}

// Sequences of operations.
//
//verif:entry reach=failed,reopened,signed n=3
func Histories() {
	n := sym.Param("n", 3)
	if sym.Thorough() {
		n++
	}
	histories(n)
}

func histories(n int) {
	var in keystore.Storage
	file := ""
	if sym.Choose("kind", 2) == 0 {
		m := keystore.MemStorage{}
		in = &m
	} else {
		dir := sym.Scratch("keys")
		sym.Assert(os.MkdirAll(dir, 0o700) == nil, "a directory is made")
		file = path.Join(dir, "store")
		in = keystore.NewFileStorage(file)
	}
	st := &store{Storage: in}
	ks, err := keystore.NewKeyStore(st, params)
	sym.Assert(err == nil, "a store is opened")
	pks := []babyjub.PublicKeyComp{secrets[0].Public().Compress(), secrets[1].Public().Compress()}
	s := &spec{}
	first := 0
	if sym.Choose("begun", 2) == 1 {
		p := sym.Bytes("pass", 1)
		_, err := ks.ImportKey(secrets[0], p)
		sym.Assert(err == nil, "a key is imported")
		s.stored[0], s.pass[0] = true, p
		unlock(ks, s, pks, 0, p)
		first = 1
	}
	fails := 0
	for i := 0; i < n; i++ {
		k := 0
		switch sym.Choose("op", 5) {
		case 0:
			if i+first > 0 {
				k = sym.Choose("key", 2)
			}
			p := sym.Bytes("pass", 1)
			pk, err := ks.ImportKey(secrets[k], p)
			sym.Assert(err == nil && *pk == pks[k], "a key is imported")
			s.stored[k], s.pass[k] = true, p
		case 1: // the write fails
			if fails > 0 {
				sym.Assume(false)
			}
			fails++
			if i+first > 0 {
				k = sym.Choose("key", 2)
			}
			if file == "" {
				st.fail = true
			} else {
				disk.Full(sym.Choose("room", 3) * 150)
			}
			_, err := ks.ImportKey(secrets[k], sym.Bytes("pass", 1))
			st.fail = false
			if file != "" {
				disk.Full(-1)
			}
			sym.Assert(err != nil, "a failed import is reported")
			list(ks, s, pks)
			sym.Reach("failed")
		case 2:
			k = sym.Choose("key", 2)
			unlock(ks, s, pks, k, sym.Bytes("pass", 1))
		case 3:
			old := ks
			sym.Assert(ks.Close() == nil, "a store is closed")
			s.unlocked = [2]bool{}
			use(old, s, pks, 0)
			use(old, s, pks, 1)
			if file != "" {
				_, err := old.ImportKey(secrets[0], []byte("p"))
				sym.Assert(err != nil, "a closed store is not written to")
				st = &store{Storage: keystore.NewFileStorage(file)}
			}
			ks, err = keystore.NewKeyStore(st, params)
			sym.Assert(err == nil, "a store is opened again")
			sym.Reach("reopened")
		case 4: // what is exported is the caller's
			k = sym.Choose("key", 2)
			use(ks, s, pks, k)
			if sk, err := ks.ExportKey(&pks[k]); err == nil {
				sk[0] ^= 1
				use(ks, s, pks, k)
				sym.Reach("signed")
			}
		}
	}
	list(ks, s, pks)
	use(ks, s, pks, 0)
	use(ks, s, pks, 1)
	sym.Assert(ks.Close() == nil, "a store is closed")
	if file != "" {
		st = &store{Storage: keystore.NewFileStorage(file)}
	}
	ks, err = keystore.NewKeyStore(st, params)
	sym.Assert(err == nil, "a store is opened again")
	s.unlocked = [2]bool{}
	list(ks, s, pks)
	for k := range pks {
		if s.stored[k] {
			sym.Assert(ks.UnlockKey(&pks[k], s.pass[k]) == nil, "a stored key is unlocked by its passphrase")
			s.unlocked[k] = true
		}
		use(ks, s, pks, k)
	}
}

// A file is open in one store at a time.
//
//verif:entry reach=refused,opened n=5
func Locks() {
	dir := sym.Scratch("keys")
	sym.Assert(os.MkdirAll(dir, 0o700) == nil, "a directory is made")
	f := path.Join(dir, "store")
	// each user has a storage of its own, which it keeps using
	var fs [3]*keystore.FileStorage
	for i := range fs {
		fs[i] = keystore.NewFileStorage(f)
	}
	var ks [3]*keystore.KeyStore
	holder := -1
	n := sym.Param("n", 5)
	if sym.Thorough() {
		n++
	}
	for i := 0; i < n; i++ {
		k := sym.Choose("who", 3)
		if sym.Choose("op", 2) == 0 {
			x, err := keystore.NewKeyStore(fs[k], params)
			if holder >= 0 {
				sym.Assert(err == keystore.ErrStorageLock && x == nil, "a file that is open is not opened again")
				sym.Reach("refused")
			} else {
				sym.Assert(err == nil, "a file that is not open is opened")
				holder, ks[k] = k, x
				sym.Reach("opened")
			}
		} else if ks[k] != nil {
			err := ks[k].Close()
			if holder == k {
				sym.Assert(err == nil, "a store is closed")
				holder = -1
			}
		}
		if holder >= 0 {
			_, err := ks[holder].ImportKey(secrets[0], []byte("p"))
			sym.Assert(err == nil, "an open store is written to")
		}
	}
}

// A file is opened by others while its store is being closed.
//
//verif:entry reach=opened,refused preempt=2 yields=lock,go,sym
func Handover() {
	dir := sym.Scratch("keys")
	sym.Assert(os.MkdirAll(dir, 0o700) == nil, "a directory is made")
	f := path.Join(dir, "store")
	ks, err := keystore.NewKeyStore(keystore.NewFileStorage(f), params)
	sym.Assert(err == nil, "a file that is not open is opened")
	fs := []*keystore.FileStorage{keystore.NewFileStorage(f), keystore.NewFileStorage(f)}
	var ec error
	var x [2]*keystore.KeyStore
	var e [2]error
	sym.Go(func() { ec = ks.Close() })
	n := 1 + sym.Choose("two", 2)
	for i := 0; i < n; i++ {
		i := i
		sym.Go(func() { x[i], e[i] = keystore.NewKeyStore(fs[i], params) })
	}
	sym.Wait()
	sym.Assert(ec == nil, "a store is closed")
	sym.Assert(e[0] == nil || e[0] == keystore.ErrStorageLock, "a file is opened or reported as open")
	sym.Assert(e[1] == nil || e[1] == keystore.ErrStorageLock, "a file is opened or reported as open")
	sym.Assert(x[0] == nil || x[1] == nil, "a file is open in one store at a time")
	y, err := keystore.NewKeyStore(fs[1], params)
	if x[0] != nil || x[1] != nil {
		sym.Reach("opened")
		sym.Assert(err == keystore.ErrStorageLock && y == nil, "a file that is open is not opened again")
	} else {
		sym.Reach("refused")
		sym.Assert(err == nil, "a file that is not open is opened")
	}
}

// Whatever is in the storage, it is opened or refused.
//
//verif:entry reach=opened,refused
func Contents() {
	pk := secrets[0].Public().Compress()
	t, _ := pk.MarshalText()
	k := string(t)
	l := []string{"", "null", "{}", "[]", "x", `{"` + k + `":{}}`, `{"` + k + `":null}`, `{"00":{}}`, `{"` + k + `":{"ScryptN":2,"ScryptP":1}}`, `{"` + k + `":{"ScryptN":2}}`, `"x"`}
	m := keystore.MemStorage(l[sym.Choose("text", len(l))])
	ks, err := keystore.NewKeyStore(&m, params)
	if err != nil {
		sym.Assert(ks == nil, "a store or an error")
		sym.Reach("refused")
		return
	}
	sym.Assert(ks.UnlockKey(&pk, sym.Bytes("pass", 1)) != nil, "no key is unlocked from bad contents")
	_, err = ks.ImportKey(secrets[0], []byte{1})
	sym.Assert(err == nil, "a key is imported")
	sym.Assert(ks.UnlockKey(&pk, []byte{1}) == nil, "a key is unlocked")
	sym.Reach("opened")
}

// A storage in memory keeps what was written.
//
//verif:entry reach=ok
func Memory() {
	m := keystore.MemStorage{}
	b := sym.Bytes("b", 3)
	w := append([]byte{}, b...)
	sym.Assert(m.Write(b) == nil, "it is written")
	b[0] ^= 1
	r, err := m.Read()
	sym.Assert(err == nil && bytes.Equal(r, w), "what is read is what was written")
	r[0] ^= 1
	r, err = m.Read()
	sym.Assert(err == nil && bytes.Equal(r, w), "what is read is what was written")
	sym.Reach("ok")
}

// Two users of a store.
//
//verif:entry reach=ok,both preempt=2 yields=lock,go,map
func Together() {
	m := keystore.MemStorage{}
	ks, err := keystore.NewKeyStore(&m, params)
	sym.Assert(err == nil, "a store is opened")
	pks := []babyjub.PublicKeyComp{secrets[0].Public().Compress(), secrets[1].Public().Compress()}
	_, err = ks.ImportKey(secrets[0], []byte{1})
	sym.Assert(err == nil, "a key is imported")
	var e1, e2 error
	how := sym.Choose("how", 3)
	if how != 1 {
		sym.Go(func() { _, e1 = ks.ImportKey(secrets[1], []byte{2}) })
	} else {
		sym.Go(func() { e1 = ks.UnlockKey(&pks[0], []byte{1}) })
	}
	sym.Go(func() {
		if how == 2 {
			_, e2 = ks.ImportKey(secrets[2], []byte{3})
			return
		}
		if sig, err := ks.SignElem(&pks[0], msg); err == nil {
			ok, err := keystore.VerifySignatureElem(&pks[0], msg, sig)
			sym.Assert(ok && err == nil, "a key makes its own signatures")
		}
		e2 = ks.UnlockKey(&pks[0], []byte{1})
		sym.Assert(len(ks.Keys()) >= 1, "keys are listed")
	})
	sym.Wait()
	sym.Assert(e1 == nil && e2 == nil, "both are done")
	if how == 2 {
		pks[0] = secrets[2].Public().Compress()
		for i := 0; i < 2; i++ {
			sym.Assert(ks.UnlockKey(&pks[0], []byte{3}) == nil && ks.UnlockKey(&pks[1], []byte{2}) == nil, "both keys are stored")
			sym.Assert(len(ks.Keys()) == 3, "both keys are stored")
			ks, err = keystore.NewKeyStore(&m, params)
			sym.Assert(err == nil, "a store is opened again")
		}
		sym.Reach("both")
		return
	}
	s := &spec{stored: [2]bool{true, how == 0}, unlocked: [2]bool{true, false}}
	list(ks, s, pks)
	use(ks, s, pks, 0)
	ks, err = keystore.NewKeyStore(&m, params)
	sym.Assert(err == nil, "a store is opened again")
	list(ks, s, pks)
	sym.Reach("ok")
}
