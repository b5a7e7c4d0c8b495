package c31

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func maxLen() int {
	if sym.Thorough() {
		return 40
	}
	return sym.Param("len", 8)
}

// Hex helpers round-trip on all byte strings.
//
//verif:entry reach=ok len=12
func Hex() {
	n := sym.Choose("n", maxLen()+1)
	b := sym.Bytes("b", n)
	s := common.HexEncode(b)
	sym.Assert(len(s) == 2+2*n && s[:2] == "0x", "hexadecimal text has its prefix and two digits per byte")
	for k := 0; k < 2; k++ {
		t := s
		if k == 1 {
			t = s[2:]
		}
		d, err := common.HexDecode(t)
		sym.Assert(err == nil && len(d) == n, "encoded bytes decode")
		sym.Assert(sym.EqBytes(d, b), "hexadecimal decoding inverts encoding")
		dst := make([]byte, n)
		sym.Assert(common.HexDecodeInto(dst, []byte(t)) == nil, "encoded bytes decode into a buffer of their length")
		sym.Assert(sym.EqBytes(dst, b), "decoding into a buffer inverts encoding")
		sym.Assert(common.HexDecodeInto(make([]byte, n+1), []byte(t)) != nil, "a longer buffer is refused")
		if n > 0 {
			sym.Assert(common.HexDecodeInto(make([]byte, n-1), []byte(t)) != nil, "a shorter buffer is refused")
		}
	}
	h := common.Hex(b)
	m, err := h.MarshalText()
	sym.Assert(err == nil && string(m) == h.String(), "text form is the string form")
	var h2 common.Hex
	sym.Assert(h2.UnmarshalText(m) == nil, "text form is accepted")
	sym.Assert(sym.EqBytes(h2, b), "text form round-trips")
	j, err := json.Marshal(common.Hex(b))
	sym.Assert(err == nil, "JSON form is produced")
	var h3 common.Hex
	sym.Assert(json.Unmarshal(j, &h3) == nil && sym.EqBytes(h3, b), "JSON form round-trips")
	j2, _ := json.Marshal(s)
	d, err := common.UnmarshalJSONHexDecode(j2)
	sym.Assert(err == nil && sym.EqBytes(d, b), "JSON text with prefix round-trips")
	dst := make([]byte, n)
	sym.Assert(common.UnmarshalJSONHexDecodeInto(dst, j2) == nil && sym.EqBytes(dst, b), "JSON text decodes into a buffer")
	sym.Reach("ok")
}

func val(c byte) (byte, bool) {
	switch {
	case sym.And('0' <= c, c <= '9'):
		return c - '0', true
	case sym.And('a' <= c, c <= 'f'):
		return c - 'a' + 10, true
	case sym.And('A' <= c, c <= 'F'):
		return c - 'A' + 10, true
	}
	return 0, false
}

// Decoding arbitrary text as hexadecimal: the value it denotes or an error.
//
//verif:entry reach=ok,error
func HexText() {
	n := sym.Choose("n", sym.Param("text", 6))
	t := sym.Bytes("t", n)
	var dst [2]byte
	_ = common.HexDecodeInto(dst[:], t)
	h := t
	if n >= 2 && t[0] == '0' && t[1] == 'x' {
		h = t[2:]
	}
	d, err := common.HexDecode(string(t))
	if err != nil {
		sym.Reach("error")
		if len(h)%2 == 0 {
			bad := false
			for _, c := range h {
				if _, ok := val(c); !ok {
					bad = true
				}
			}
			sym.Assert(bad, "text of an even number of digits is accepted")
		}
		return
	}
	sym.Reach("ok")
	sym.Assert(len(h)%2 == 0 && len(d) == len(h)/2, "accepted text has two digits per byte")
	for i := range d {
		a, ok1 := val(h[2*i])
		b, ok2 := val(h[2*i+1])
		sym.Assert(ok1 && ok2, "accepted text consists of digits")
		sym.Assert(d[i] == a<<4|b, "accepted text denotes the returned bytes")
	}
	var x common.Hex
	_ = x.UnmarshalText(t)
}

// Base64 helpers round-trip with and without padding.
//
//verif:entry reach=ok
func Base64() {
	n := sym.Choose("n", maxLen()+1)
	b := sym.Bytes("b", n)
	s := common.BytesToBase64(b)
	d, err := common.Base64ToBytes(s)
	sym.Assert(err == nil && sym.EqBytes(d, b), "base64 decoding inverts encoding")
	d, err = common.Base64Decode(s)
	sym.Assert(err == nil && sym.EqBytes(d, b), "optional padding decoding accepts padded text")
	d, err = common.Base64Decode(base64.RawStdEncoding.EncodeToString(b))
	sym.Assert(err == nil && sym.EqBytes(d, b), "optional padding decoding accepts text without padding")
	sym.Reach("ok")
}

// Decoding arbitrary text as base64 never crashes.
//
//verif:entry reach=ok,error
func Base64Text() {
	n := sym.Choose("n", 6)
	t := string(sym.Bytes("t", n))
	d, err := common.Base64Decode(t)
	if err != nil {
		sym.Reach("error")
	} else {
		sym.Reach("ok")
		sym.Assert(len(d) <= 3*n/4, "decoded data is not longer than the text denotes")
	}
	_, _ = common.Base64ToBytes(t)
}

// Arbitrary bytes given to the JSON hexadecimal helpers.
//
//verif:entry
func JSONText() {
	s := sym.Str("t", sym.Choose("n", 5))
	bad := []string{"", "\"", "1", "null", "[]", "{}", "tru"}
	k := sym.Choose("form", 1+len(bad))
	j := []byte("\"" + s + "\"")
	if k > 0 {
		j = []byte(bad[k-1])
	}
	_, _ = common.UnmarshalJSONHexDecode(j)
	var dst [2]byte
	_ = common.UnmarshalJSONHexDecodeInto(dst[:], j)
}

// Integer conversions.
//
//verif:entry reach=ok
func Ints() {
	a, b, c := sym.U16("a"), sym.U32("b"), sym.U64("c")
	sym.Assert(common.BytesToUint16(common.Uint16ToBytes(a)) == a, "16-bit integers round-trip")
	sym.Assert(common.BytesToUint32(common.Uint32ToBytes(b)) == b, "32-bit integers round-trip")
	sym.Assert(common.EthBytesToUint32(common.Uint32ToEthBytes(b)) == b, "32-bit chain integers round-trip")
	sym.Assert(common.EthBytesToUint64(common.Uint64ToEthBytes(c)) == c, "64-bit chain integers round-trip")
	l, e := common.Uint32ToBytes(b), common.Uint32ToEthBytes(b)
	sym.Assert(len(l) == 4 && len(e) == 4, "32-bit integers take four bytes")
	sym.Assert(l[0] == byte(b) && l[3] == byte(b>>24), "little-endian order")
	sym.Assert(e[3] == byte(b) && e[0] == byte(b>>24), "chain integers are big-endian")
	w := common.Uint64ToEthBytes(c)
	sym.Assert(len(w) == 8 && w[7] == byte(c) && w[0] == byte(c>>56), "64-bit chain integers are big-endian")
	u := common.Uint16ToBytes(a)
	sym.Assert(len(u) == 2 && u[0] == byte(a) && u[1] == byte(a>>8), "16-bit integers are little-endian")
	sym.Assert(sym.EqBytes(common.SwapEndianness(l), e), "swapping the order of bytes turns one form into the other")
	sym.Reach("ok")
}

// Bit helpers.
//
//verif:entry reach=ok
func Bits() {
	sizes := []int{1, 2, 30}
	if sym.Thorough() {
		sizes = []int{1, 2, 3, 8, 29, 30, 31, 32, 33}
	}
	n := sizes[sym.Choose("size", len(sizes))]
	a := sym.Bytes("a", n)
	i := uint(sym.Choose("i", 8*n))
	old := append([]byte{}, a...)
	was, wasB := common.TestBit(a, i), common.TestBitBigEndian(a, i)
	sym.Assert(was == (a[i/8]>>(i%8)&1 == 1), "bit n is bit n%8 of byte n/8")
	sym.Assert(wasB == (a[uint(n)-1-i/8]>>(i%8)&1 == 1), "big-endian bits count from the last byte")
	common.SetBit(a, i)
	sym.Assert(common.TestBit(a, i), "a set bit is set")
	b := append([]byte{}, old...)
	common.SetBitBigEndian(b, i)
	sym.Assert(common.TestBitBigEndian(b, i), "a set big-endian bit is set")
	for k := 0; k < 8*n; k++ {
		if uint(k) == i {
			continue
		}
		m := byte(1) << (uint(k) % 8)
		sym.Assert(a[k/8]&m == old[k/8]&m, "setting a bit leaves the others")
		sym.Assert(b[n-1-k/8]&m == old[n-1-k/8]&m, "setting a big-endian bit leaves the others")
	}
	sym.Reach("ok")
}

// Reversal of byte order.
//
//verif:entry reach=ok
func Swap() {
	n := sym.Choose("n", 34)
	b := sym.Bytes("b", n)
	old := append([]byte{}, b...)
	s := common.SwapEndianness(b)
	sym.Assert(len(s) == n, "reversal keeps the length")
	for i := range s {
		sym.Assert(s[i] == old[n-1-i], "reversal reverses")
	}
	sym.Assert(sym.EqBytes(b, old), "reversal leaves its input")
	sym.Assert(sym.EqBytes(common.SwapEndianness(s), b), "reversal is its own inverse")
	sym.Reach("ok")
}

var _ = hex.EncodeToString
