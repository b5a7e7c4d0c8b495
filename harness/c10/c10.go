package c10

import (
	"encoding/json"
	"math/big"

	"github.com/btcsuite/btcutil/base58"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func parts() (typ [2]byte, gen [27]byte) {
	copy(typ[:], sym.Bytes("type", 2))
	copy(gen[:], sym.Bytes("genesis", 27))
	return
}

func sum(b []byte) uint16 {
	s := uint16(0)
	for _, x := range b {
		s += uint16(x)
	}
	return s
}

func zero(b []byte) bool {
	z := byte(0)
	for _, x := range b {
		z |= x
	}
	return z == 0
}

// Building, taking apart, and every textual form.
//
//verif:entry reach=ok,zero
func RoundTrip() {
	typ, gen := parts()
	id := core.NewID(typ, gen)
	t, g, c, err := core.DecomposeID(id)
	sym.Assert(err == nil, "an identifier comes apart")
	sym.Assert(t == typ, "the type is carried unchanged")
	sym.Assert(sym.EqBytes(g[:], gen[:]), "the genesis bytes are carried unchanged")
	sym.Assert(sym.And(sym.EqBytes(id[:2], typ[:]), sym.EqBytes(id[2:29], gen[:]), sym.EqBytes(id[29:], c[:])), "the identifier is type, genesis and checksum in order")
	s := sum(id[:29])
	sym.Assert(c[0] == byte(s>>8) && c[1] == byte(s), "the checksum is the sum of the other bytes")
	sym.Assert(core.CalculateChecksum(typ, gen) == c, "the checksum is a function of type and genesis")
	if zero(id[:29]) {
		sym.Reach("zero")
		sym.Assert(!core.CheckChecksum(id), "the zero identifier is not valid")
		return
	}
	sym.Assert(core.CheckChecksum(id), "a built identifier is valid")
	id2, err := core.IDFromBytes(id.Bytes())
	sym.Assert(err == nil, "the byte form is accepted")
	sym.Assert(sym.EqBytes(id2[:], id[:]), "the byte form round-trips")
	id3, err := core.IDFromString(id.String())
	sym.Assert(err == nil, "the text form is accepted")
	sym.Assert(sym.EqBytes(id3[:], id[:]), "the text form round-trips")
	m, err := id.MarshalText()
	sym.Assert(err == nil, "the text form is produced")
	var id4 core.ID
	sym.Assert(id4.UnmarshalText(m) == nil, "the text form is parsed")
	sym.Assert(sym.EqBytes(id4[:], id[:]), "parsing inverts the text form")
	j, err := json.Marshal(struct {
		A core.ID
		B *core.ID
	}{id, &id})
	sym.Assert(err == nil, "the JSON form is produced")
	var st struct {
		A core.ID
		B *core.ID
	}
	sym.Assert(json.Unmarshal(j, &st) == nil, "the JSON form is parsed")
	sym.Assert(sym.EqBytes(st.A[:], id[:]) && st.B != nil && sym.EqBytes(st.B[:], id[:]), "the JSON form round-trips")
	sym.Assert(id.Equal(&id2) && id.Equals(&id3), "an identifier equals its copies")
	be := make([]byte, 31)
	for i := range be {
		be[i] = id[30-i]
	}
	sym.Assert(id.BigInt().Cmp(new(big.Int).SetBytes(be)) == 0, "the integer form denotes the bytes")
	sym.Reach("ok")
}

// Arbitrary bytes of any length.
//
//verif:entry reach=ok,length,zero,checksum
func FromBytes() {
	n := sym.Choose("n", 34)
	b := sym.Bytes("b", n)
	viaText := sym.Choose("text", 2) == 1
	old := append([]byte{}, b...)
	var id core.ID
	var err error
	if viaText {
		id, err = core.IDFromString(base58.Encode(b))
	} else {
		id, err = core.IDFromBytes(b)
	}
	sym.Assert(sym.EqBytes(b, old), "parsing leaves its input")
	if n != 31 {
		sym.Reach("length")
		sym.Assert(err != nil, "a wrong length is refused")
		return
	}
	if zero(b) {
		sym.Reach("zero")
		sym.Assert(err != nil, "the zero identifier is refused")
		return
	}
	s := sum(b[:29])
	good := sym.And(b[29] == byte(s>>8), b[30] == byte(s))
	if err != nil {
		sym.Reach("checksum")
		sym.Assert(!good, "a correct identifier is accepted")
		return
	}
	sym.Reach("ok")
	sym.Assert(good, "an accepted identifier has its checksum")
	sym.Assert(sym.EqBytes(id[:], b), "an accepted identifier is the bytes given")
	var c core.ID
	copy(c[:], b)
	sym.Assert(core.CheckChecksum(c), "an accepted identifier is valid")
}

// Corrupting a single byte of an identifier is noticed, unless two bytes compensate.
//
//verif:entry reach=corrupted
func Corruption() {
	typ, gen := parts()
	id := core.NewID(typ, gen)
	bad := id
	i := sym.Choose("i", 31)
	x := sym.U8("x")
	sym.Assume(x != id[i])
	bad[i] = x
	sym.Reach("corrupted")
	_, err := core.IDFromBytes(bad[:])
	sym.Assert(err != nil, "a corrupted byte is noticed")
	sym.Assert(!core.CheckChecksum(bad), "a corrupted byte fails validation")
	sym.Assert(!id.Equal(&bad) && !id.Equals(&bad), "a corrupted identifier is not equal")
	sym.Assert(id.BigInt().Cmp(bad.BigInt()) != 0, "different identifiers have different integers")
}

// Text that does not denote an identifier.
//
//verif:entry
func BadText() {
	for _, s := range []string{"", "1", "0OIl", "11111111111111111111111111111111111111111", "!", "113kyY52PSBr9oUqosmYkCavjjrQFuiuAw47FpZeUg", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"} {
		_, err := core.IDFromString(s)
		sym.Assert(err != nil, "text that is no identifier is refused")
		var id core.ID
		sym.Assert(id.UnmarshalText([]byte(s)) != nil, "text that is no identifier is not parsed")
	}
}
