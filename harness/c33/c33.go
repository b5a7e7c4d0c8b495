// Package c33 checks that key stores and zk files are free of data races.
package c33

import (
	"crypto/sha256"
	"encoding/hex"
	"io"
	"math/big"
	"os"
	"path"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/keystore"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-core/verifharness/model/disk"
	_ "github.com/iden3/go-iden3-core/verifharness/model/keys"
	"github.com/iden3/go-iden3-core/verifharness/sym"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

// pair runs two of the operations at once, every pair in turn.
func pair(ops ...func()) {
	a := sym.Choose("first", len(ops))
	b := sym.Choose("second", len(ops))
	sym.Assume(a <= b)
	sym.Go(ops[a])
	sym.Go(ops[b])
	sym.Wait()
	sym.Reach("done")
}

var (
	params  = keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}
	secrets = []babyjub.PrivateKey{{1, 2, 3}, {4, 5, 6}}
)

func use(s keystore.Storage) {
	ks, err := keystore.NewKeyStore(s, params)
	sym.Assert(err == nil, "a store is opened")
	pk, err := ks.ImportKey(secrets[0], []byte{1})
	sym.Assert(err == nil, "a key is imported")
	if sym.Choose("unlocked", 2) == 1 {
		sym.Assert(ks.UnlockKey(pk, []byte{1}) == nil, "a key is unlocked")
	}
	prefix := make([]byte, 2, 100)
	pair(
		func() { _, _ = ks.ImportKey(secrets[1], []byte{2}) },
		func() { _, _ = ks.NewKey([]byte{3}) },
		func() { _ = ks.UnlockKey(pk, []byte{sym.U8("pass")}) },
		func() { _, _ = ks.ExportKey(pk) },
		func() { ks.Keys() },
		func() { _, _ = ks.SignElem(pk, big.NewInt(5)) },
		func() { _, _ = ks.SignRaw(pk, []byte{1, 2}) },
		func() { _, _, _ = ks.Sign(pk, prefix, []byte{1, 2}) },
		func() { _ = ks.Close() },
	)
}

//verif:entry reach=done race=1
func KeysInMemory() { use(&keystore.MemStorage{}) }

//verif:entry reach=done race=1
func KeysInFile() {
	dir := sym.Scratch("keys")
	sym.Assert(os.MkdirAll(dir, 0o700) == nil, "a directory is made")
	use(keystore.NewFileStorage(path.Join(dir, "store")))
}

//verif:model native github.com/iden3/go-circom-prover-verifier/parsers.ParseVk
func parseVk(vj []byte) (*zktypes.Vk, error) { return &zktypes.Vk{}, nil }

//verif:model native github.com/iden3/go-circom-prover-verifier/parsers.ParsePk
func parsePk(pj []byte) (*zktypes.Pk, error) { return &zktypes.Pk{}, nil }

//verif:model native github.com/iden3/go-circom-prover-verifier/parsers.ParsePkGoBin
func parsePkGoBin(f *os.File) (*zktypes.Pk, error) {
	_, err := io.ReadAll(f)
	return &zktypes.Pk{}, err
}

//verif:entry reach=done race=1
func Files() {
	url := disk.Serve()
	body := []byte{1, 2}
	s := sha256.Sum256(body)
	h := hex.EncodeToString(s[:])
	disk.Handler = func(p string) disk.Answer { return disk.Answer{Status: 200, Body: body} }
	format := zkutils.ProvingKeyFormat(zkutils.ProvingKeyFormatJSON)
	if sym.Choose("format", 2) == 1 {
		format = zkutils.ProvingKeyFormatGoBin
	}
	z := zkutils.NewZkFiles(url, sym.Scratch("zk"), format, zkutils.ZkFilesHashes{ProvingKey: h, VerificationKey: h, WitnessCalcWASM: h}, sym.Choose("cache", 2) == 1)
	if sym.Choose("loaded", 2) == 1 {
		sym.Assert(z.LoadAll() == nil, "the files are loaded")
	}
	pair(
		func() { _ = z.LoadAll() },
		func() { _ = z.DownloadAll() },
		func() { _, _ = z.ProvingKey() },
		func() { _, _ = z.VerificationKey() },
		func() { _, _ = z.WitnessCalcWASM() },
		func() { _ = z.InsecureDownloadAll() },
		func() { _, _ = z.InsecureCalcHashes() },
	)
}
