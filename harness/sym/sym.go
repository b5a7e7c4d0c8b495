// Package sym is the interface between harnesses and the symbolic engine.
// The engine replaces every function here; the bodies below are the native
// implementation, which reads the inputs of a counterexample.
package sym

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"

	"github.com/iden3/go-iden3-crypto/constants"
)

var in struct {
	Inputs   map[string]string
	Hashes   []hashRow
	Schedule []int
}

type hashRow struct {
	Fn  string
	In  []string
	Out string
}

var install func(func(fn string, xs []*big.Int) *big.Int)

var occ = map[string]int{}

func val(name string) *big.Int {
	k := occ[name]
	occ[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	v, ok := new(big.Int).SetString(in.Inputs[name], 16)
	if !ok {
		return new(big.Int)
	}
	return v
}

func fill(v *big.Int, n int) []byte {
	r := make([]byte, n)
	b := v.Bytes()
	if len(b) > n {
		b = b[len(b)-n:]
	}
	copy(r[n-len(b):], b)
	return r
}

func U8(name string) uint8   { return uint8(val(name).Uint64()) }
func U16(name string) uint16 { return uint16(val(name).Uint64()) }
func U32(name string) uint32 { return uint32(val(name).Uint64()) }
func U64(name string) uint64 { return val(name).Uint64() }
func I64(name string) int64  { return int64(val(name).Uint64()) }
func Int(name string) int    { return int(val(name).Uint64()) }
func Bool(name string) bool  { return val(name).Sign() != 0 }

// Range is an integer in [lo,hi].
func Range(name string, lo, hi int) int {
	v := int(int64(val(name).Uint64()))
	if v < lo || v > hi {
		return lo
	}
	return v
}

// Choose explores every value in [0,n) as a separate path.
func Choose(name string, n int) int {
	if n <= 1 {
		if n == 1 {
			val(name)
		}
		return 0
	}
	return int(val(name).Uint64())
}

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	return fill(val(name), n)
}

// Elem is an arbitrary field element in little-endian bytes.
func Elem(name string) [32]byte {
	b := fill(val(name), 32)
	var r [32]byte
	for i := range r {
		r[i] = b[31-i]
	}
	return r
}

// Big is an arbitrary non-negative integer of at most the given bits.
func Big(name string, bits int) *big.Int { return val(name) }

// Field is an arbitrary field element.
func Field(name string) *big.Int {
	v := val(name)
	if v.Cmp(constants.Q) >= 0 {
		v.Mod(v, constants.Q)
	}
	return v
}

// Str is printable text of length n without characters JSON escapes.
func Str(name string, n int) string {
	if n == 0 {
		return ""
	}
	return string(fill(val(name), n))
}

func Assume(c bool) {
	if !c {
		if abortImpl != nil {
			abortImpl()
		}
		fmt.Println("ASSUME-FAILED")
		os.Exit(4)
	}
}

// AssumeFree is Assume for a condition that some values always satisfy, such
// as one on fresh inputs; it is checked later and together with others.
func AssumeFree(c bool) { Assume(c) }

func Assert(c bool, label string) {
	if !c {
		fmt.Println("ASSERT-FAILED " + label)
		os.Exit(3)
	}
}

// Scratch is a path in a directory of this run.
func Scratch(name string) string {
	d := os.Getenv("SYM_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	if run > 0 {
		d = fmt.Sprintf("%s/%d", d, run)
		_ = os.MkdirAll(d, 0o700)
	}
	return d + "/" + name
}

func Reach(label string)            {}
func Thorough() bool                { return os.Getenv("SYM_TIER") == "thorough" }
func Symbolic() bool                { return false }
func MapReverse(b bool)             {}
func Debug(s string, x interface{}) {}
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

var (
	nowV   int64
	nowSet bool
)

// Now is the clock of this run, in Unix seconds.
func Now() int64 {
	if !nowSet {
		nowV, nowSet = time.Now().Unix(), true
		if v, ok := in.Inputs["now"]; ok && v != "" {
			nowV = val("now").Int64()
		}
	}
	return nowV
}

// SetNow sets the clock of this run.
func SetNow(t int64) { nowV, nowSet = t, true }

// And and Or combine conditions without forking.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

// EqBytes compares contents without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Catch runs f and reports whether it panicked.
func Catch(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// ---- schedules

var (
	goImpl    = func(f func()) { f() }
	waitImpl  = func() {}
	yieldImpl = func() {}
	abortImpl func()
	runImpl   = func(f func()) { f() }
	run       int
)

// Go starts a thread.
func Go(f func()) { goImpl(f) }

// Yield is a scheduling point.
func Yield() { yieldImpl() }

// Wait waits for every thread started with Go.
func Wait() { waitImpl() }

// Main runs one harness entry natively.
func Main(entries map[string]func()) {
	b, err := os.ReadFile(os.Getenv("SYM_INPUT"))
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	tab := map[string]*big.Int{}
	for _, h := range in.Hashes {
		fam := strings.SplitN(h.Fn, "#", 2)[0]
		o, _ := new(big.Int).SetString(h.Out, 16)
		tab[fam+":"+strings.Join(h.In, ",")] = o
	}
	lookup := func(fn string, xs []*big.Int) *big.Int {
		k := make([]string, len(xs))
		for i, x := range xs {
			if x == nil {
				return nil
			}
			k[i] = x.Text(16)
		}
		if v, ok := tab[fn+":"+strings.Join(k, ",")]; ok {
			return new(big.Int).Set(v)
		}
		return nil
	}
	if install != nil {
		install(lookup)
	}
	f, ok := entries[os.Getenv("SYM_ENTRY")]
	if !ok {
		fmt.Println("no such entry")
		os.Exit(9)
	}
	runImpl(f)
	fmt.Println("REPLAY-OK")
}

var params map[string]int

// Param is a bound set in the entry's directive.
func Param(name string, def int) int {
	if params == nil {
		params = map[string]int{}
		_ = json.Unmarshal([]byte(os.Getenv("SYM_PARAMS")), &params)
	}
	if v, ok := params[name]; ok {
		return v
	}
	return def
}
