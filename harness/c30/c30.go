// Package c30 checks the conversions of proofs and the files of circuits.
package c30

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"math/big"
	"os"
	"path"

	"github.com/iden3/go-circom-prover-verifier/parsers"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-core/verifharness/model/bn"
	"github.com/iden3/go-iden3-core/verifharness/model/disk"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func eq(n *big.Int, b []byte) bool { return n != nil && n.Cmp(new(big.Int).SetBytes(b)) == 0 }

// Points become the numbers they are written as.
//
//verif:entry reach=ok
func Points() {
	p, c := bn.Proof("proof")
	a, b, d := zkutils.ProofToBigInts(p)
	sym.Assert(sym.And(eq(a[0], c[0]), eq(a[1], c[1])), "the first point keeps its coordinates")
	sym.Assert(sym.And(eq(b[0][0], c[2]), eq(b[0][1], c[3]), eq(b[1][0], c[4]), eq(b[1][1], c[5])), "the second point keeps its coordinates")
	sym.Assert(sym.And(eq(d[0], c[6]), eq(d[1], c[7])), "the third point keeps its coordinates")
	x := zkutils.G1ToBigInts(p.C)
	y := zkutils.G2ToBigInts(p.B)
	sym.Assert(sym.And(eq(x[0], c[6]), eq(x[1], c[7]), eq(y[0][0], c[2]), eq(y[0][1], c[3]), eq(y[1][0], c[4]), eq(y[1][1], c[5])), "a point keeps its coordinates")
	sym.Reach("ok")
}

// Public signals read back from JSON.
//
//verif:entry reach=ok
func Signals() {
	n := sym.Choose("n", 4)
	var l []*big.Int
	for i := 0; i < n; i++ {
		// one of any size, the others short
		bytes := 32
		if i > 0 {
			bytes = 1
		}
		l = append(l, new(big.Int).SetBytes(sym.Bytes("s", bytes)))
	}
	b, err := json.Marshal(zkutils.PubSignals(l))
	sym.Assert(err == nil, "signals are written")
	var r zkutils.PubSignals
	sym.Assert(json.Unmarshal(b, &r) == nil, "signals are read")
	sym.Assert(len(r) == n, "as many signals are read as were written")
	for i := range r {
		sym.Assert(r[i].Cmp(l[i]) == 0, "signals read back equal")
	}
	// the form is little-endian hex
	if n == 1 {
		var s []string
		sym.Assert(json.Unmarshal(b, &s) == nil && len(s) == 1, "signals are a list of texts")
		h, err := hex.DecodeString(s[0])
		sym.Assert(err == nil, "signals are hex")
		v := new(big.Int)
		for i := len(h) - 1; i >= 0; i-- {
			v.Add(v.Lsh(v, 8), big.NewInt(int64(h[i])))
		}
		sym.Assert(v.Cmp(l[0]) == 0, "signals are little-endian")
	}
	sym.Reach("ok")
}

// Signals of different values are written differently, and bad text is refused.
//
//verif:entry reach=ok,refused
func Texts() {
	n := sym.Choose("len", 5)
	t := sym.Str("t", n)
	b, err := json.Marshal([]string{t})
	sym.Assert(err == nil, "a text is written")
	var r zkutils.PubSignals
	if err := json.Unmarshal(b, &r); err != nil {
		sym.Reach("refused")
		_, e := hex.DecodeString(t)
		sym.Assert(e != nil, "hex is read")
		return
	}
	sym.Reach("ok")
	h, e := hex.DecodeString(t)
	sym.Assert(e == nil && len(r) == 1, "what is not hex is refused")
	for i, j := 0, len(h)-1; i < j; i, j = i+1, j-1 {
		h[i], h[j] = h[j], h[i]
	}
	sym.Assert(eq(r[0], h), "the text denotes the number read")
}

type inputs struct {
	A *big.Int   `mapstructure:"a"`
	B []*big.Int `mapstructure:"b"`
	C *big.Int
}

// Inputs of a circuit become decimal text.
//
//verif:entry reach=ok
func Inputs() {
	v := inputs{A: sym.Big("a", 254), C: sym.Big("c", 8)}
	n := sym.Choose("n", 4)
	for i := 0; i < n; i++ {
		v.B = append(v.B, sym.Big("b", 254))
	}
	if n == 3 { // and numbers that are told apart by any other form
		v.A, v.B, v.C = big.NewInt(1000), []*big.Int{big.NewInt(170), big.NewInt(0), big.NewInt(99)}, new(big.Int).Lsh(big.NewInt(1), 253)
	}
	m, err := zkutils.InputsToMapStrings(&v)
	sym.Assert(err == nil && len(m) == 3, "the inputs are converted")
	num := func(x interface{}, w *big.Int) bool {
		s, ok := x.(string)
		if !ok {
			return false
		}
		g, ok := new(big.Int).SetString(s, 10)
		return ok && g.Cmp(w) == 0
	}
	sym.Assert(num(m["a"], v.A) && num(m["C"], v.C), "an input denotes the same number")
	l, ok := m["b"].([]string)
	sym.Assert(ok && len(l) == n, "a list keeps its length")
	for i := range l {
		sym.Assert(num(l[i], v.B[i]), "an input denotes the same number")
	}
	sym.Reach("ok")
}

// ---- files

var (
	parsedVk, parsedPk []byte
	errParse           = errors.New("parser model: bad key")
	failParse          bool
)

//verif:model native github.com/iden3/go-circom-prover-verifier/parsers.ParseVk
func parseVk(vj []byte) (*zktypes.Vk, error) {
	if failParse {
		return nil, errParse
	}
	parsedVk = append([]byte{}, vj...)
	return &zktypes.Vk{}, nil
}

//verif:model native github.com/iden3/go-circom-prover-verifier/parsers.ParsePk
func parsePk(pj []byte) (*zktypes.Pk, error) {
	if failParse {
		return nil, errParse
	}
	parsedPk = append([]byte{}, pj...)
	return &zktypes.Pk{}, nil
}

func parseFile(f *os.File) (*zktypes.Pk, error) {
	b, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}
	return parsePk(b)
}

//verif:model native github.com/iden3/go-circom-prover-verifier/parsers.ParsePkBin
func parsePkBin(f *os.File) (*zktypes.Pk, error) { return parseFile(f) }

//verif:model native github.com/iden3/go-circom-prover-verifier/parsers.ParsePkGoBin
func parsePkGoBin(f *os.File) (*zktypes.Pk, error) { return parseFile(f) }

var _ = parsers.ParseVk

func sha(b []byte) string {
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:])
}

// use uses one of the three files and tells its contents.
func use(z *zkutils.ZkFiles, kind, how int) ([]byte, error) {
	switch kind {
	case 0:
		if how == 1 {
			if err := z.LoadVerificationKey(); err != nil {
				return nil, err
			}
		}
		k, err := z.VerificationKey()
		sym.Assert((err == nil) == (k != nil), "a key or an error")
		return parsedVk, err
	case 1:
		if how == 1 {
			if err := z.LoadProvingKey(); err != nil {
				return nil, err
			}
		}
		k, err := z.ProvingKey()
		sym.Assert((err == nil) == (k != nil), "a key or an error")
		return parsedPk, err
	default:
		if how == 1 {
			if err := z.LoadWitnessCalcWASM(); err != nil {
				return nil, err
			}
		}
		return z.WitnessCalcWASM()
	}
}

// A file is used only if it is the right one.
//
//verif:entry reach=used,refused,later
func Files() {
	url := disk.Serve()
	dir := sym.Scratch("zk")
	kind := sym.Choose("kind", 3)
	format := zkutils.ProvingKeyFormat(zkutils.ProvingKeyFormatJSON)
	cache := sym.Choose("cache", 2) == 1
	if kind == 1 {
		format = []zkutils.ProvingKeyFormat{zkutils.ProvingKeyFormatJSON, zkutils.ProvingKeyFormatBin, zkutils.ProvingKeyFormatGoBin}[sym.Choose("format", 3)]
	}
	want := sym.Bytes("want", 2)
	part := 32 // how much of the hash is given
	if sym.Choose("whole", 2) == 1 {
		part = []int{0, 16, 31}[sym.Choose("part", 3)]
	}
	other := sha([]byte("other"))
	h := zkutils.ZkFilesHashes{ProvingKey: other, VerificationKey: other, WitnessCalcWASM: other}
	name := ""
	switch kind {
	case 0:
		h.VerificationKey, name = sha(want)[:2*part], "verification_key.json"
	case 1:
		h.ProvingKey, name = sha(want)[:2*part], "proving_key."+string(format)
	case 2:
		h.WitnessCalcWASM, name = sha(want)[:2*part], "circuit.wasm"
	}
	z := zkutils.NewZkFiles(url, dir, format, h, cache)
	a := disk.Answer{Status: 200}
	disk.Handler = func(p string) disk.Answer {
		sym.Assert(p == "/"+name, "the file asked for is the one needed")
		return a
	}
	good := false // what is there is right
	switch sym.Choose("there", 7) {
	case 0: // there already
		sym.Assert(os.MkdirAll(dir, 0o700) == nil, "a directory is made")
		b := sym.Bytes("file", 1+sym.Choose("len", 3))
		sym.Assert(os.WriteFile(path.Join(dir, name), b, 0o600) == nil, "a file is written")
		a.Body = want
		good = sym.EqBytes(b, want)
	case 1:
		a.Body = sym.Bytes("body", 1+sym.Choose("len", 3))
		good = sym.EqBytes(a.Body, want)
	case 2:
		a.Body, a.Cut = sym.Bytes("body", 1), true
	case 3:
		a.Body, a.Cut = want, true
	case 4:
		a.Down = true
	case 5:
		a.Status, a.Body = []int{404, 500, 300, 199}[sym.Choose("status", 4)], want
		if a.Status == 199 {
			sym.Assume(sym.Symbolic()) // not an answer in HTTP
		}
	case 6: // a download was interrupted before
		sym.Assert(os.MkdirAll(dir, 0o700) == nil, "a directory is made")
		sym.Assert(os.WriteFile(path.Join(dir, name)+".tmp", sym.Bytes("part", 3), 0o600) == nil, "a file is written")
		a.Body, good = want, true
	}
	b, err := use(z, kind, sym.Choose("load", 2))
	if part < 32 {
		sym.Assert(err != nil, "a file is compared with the whole hash")
		return
	}
	if !good {
		sym.Assert(err != nil, "a file that is not the right one is not used")
		sym.Reach("refused")
		if len(a.Body) == 0 || a.Cut || a.Status != 200 {
			_, e := os.Stat(path.Join(dir, name))
			sym.Assert(os.IsNotExist(e), "a failed download leaves no file")
			// it can be tried again
			a = disk.Answer{Status: 200, Body: want}
			b, err = use(z, kind, 0)
			sym.Assert(err == nil && sym.EqBytes(b, want), "a failed download can be tried again")
			sym.Reach("later")
		}
		return
	}
	sym.Assert(err == nil, "the right file is used")
	sym.Assert(sym.EqBytes(b, want), "the file used is the right one")
	n := disk.Gets
	b, err = use(z, kind, 0)
	sym.Assert(err == nil && sym.EqBytes(b, want), "the file used is the right one")
	sym.Assert(disk.Gets == n, "a file is downloaded once")
	sym.Reach("used")
}

// All files, one of which may be wrong.
//
//verif:entry reach=ok,refused
func All() {
	url := disk.Serve()
	dir := sym.Scratch("zk")
	names := []string{"proving_key.json", "verification_key.json", "circuit.wasm"}
	want := [][]byte{sym.Bytes("w0", 1), sym.Bytes("w1", 1), sym.Bytes("w2", 1)}
	h := zkutils.ZkFilesHashes{ProvingKey: sha(want[0]), VerificationKey: sha(want[1]), WitnessCalcWASM: sha(want[2])}
	got := [][]byte{want[0], want[1], want[2]}
	k := sym.Choose("wrong", 3)
	got[k] = sym.Bytes("g", 1)
	disk.Handler = func(p string) disk.Answer {
		for i, n := range names {
			if p == "/"+n {
				return disk.Answer{Status: 200, Body: got[i]}
			}
		}
		sym.Assert(false, "the files asked for are the ones needed")
		return disk.Answer{Status: 404}
	}
	z := zkutils.NewZkFiles(url, dir, zkutils.ProvingKeyFormatJSON, h, true)
	var err error
	if sym.Choose("how", 2) == 0 {
		err = z.LoadAll()
	} else {
		err = z.DownloadAll()
	}
	right := sym.EqBytes(got[k], want[k])
	if !right {
		sym.Reach("refused")
		sym.Assert(err != nil, "a file that is not the right one is not used")
		b, err := use(z, []int{1, 0, 2}[k], 0)
		sym.Assert(err != nil && b == nil, "a file that is not the right one is not used")
		return
	}
	sym.Reach("ok")
	sym.Assert(err == nil, "the right files are used")
	for i := range names {
		b, err := use(z, []int{1, 0, 2}[i], 0)
		sym.Assert(err == nil && sym.EqBytes(b, want[i]), "the file used is the right one")
	}
}
