package c05

import (
	"encoding/json"

	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func same(p, q *merkletree.Proof) {
	sym.Assert(p.Existence == q.Existence, "the existence flag survives")
	sa, sb := merkletree.SiblingsFromProof(p), merkletree.SiblingsFromProof(q)
	sym.Assert(len(sa) == len(sb), "the depth survives")
	for i := range sa {
		sym.Assert(kit.EqHash(sa[i], sb[i]), "the siblings survive at their levels")
	}
	sym.Assert((p.NodeAux == nil) == (q.NodeAux == nil), "presence of the auxiliary leaf survives")
	if p.NodeAux != nil {
		sym.Assert(kit.EqHash(p.NodeAux.HIndex, q.NodeAux.HIndex), "the auxiliary index survives")
		sym.Assert(kit.EqHash(p.NodeAux.HValue, q.NodeAux.HValue), "the auxiliary value survives")
	}
}

func circom(p *merkletree.Proof, levels int) {
	all := p.AllSiblings()
	sc := p.AllSiblingsCircom(levels)
	want := levels
	if len(all) > want {
		want = len(all)
	}
	sym.Assert(len(sc) == want+1, "the circuit sibling list has one more than the levels")
	for i := range sc {
		if i < len(all) {
			sym.Assert(sc[i].Cmp(all[i].BigInt()) == 0, "circuit siblings are the siblings")
		} else {
			sym.Assert(sc[i].Sign() == 0, "missing circuit siblings are zero")
		}
	}
}

// parse decodes bytes; whatever parses must round-trip.
func parse(bs []byte) {
	in := append([]byte{}, bs...)
	p, err := merkletree.NewProofFromBytes(bs)
	sym.Assert(sym.EqBytes(in, bs), "parsing does not alter its input")
	if err != nil {
		sym.Reach("error")
		sym.Assert(p == nil, "an error comes without a proof")
		return
	}
	sym.Reach("proof")
	q, err := merkletree.NewProofFromBytes(p.Bytes())
	sym.Assert(err == nil, "a parsed proof serialises to a parsable proof")
	same(p, q)
	all := p.AllSiblings()
	sym.Assert(len(all) == int(bs[1]), "one sibling per level")
	si := 0
	for i := range all {
		if bs[31-i/8]&(1<<uint(i%8)) != 0 {
			sym.Assert(sym.EqBytes(all[i][:], bs[32+32*si:64+32*si]), "siblings sit at the levels of the bitmap")
			si++
		} else {
			sym.Assert(kit.EqHash(all[i], &merkletree.HashZero), "levels outside the bitmap are empty")
		}
	}
}

// Short and odd-sized inputs, everything arbitrary.
//
//verif:entry reach=error,proof
func ParseShort() {
	n := []int{0, 1, 31, 32, 33, 63, 64, 65, 96}[sym.Choose("len", 9)]
	bs := sym.Bytes("bs", n)
	if n >= 32 {
		sym.Assume(bs[1] <= 4)
	}
	parse(bs)
}

// Every depth byte, with a bitmap that is arbitrary near its ends.
//
//verif:entry reach=error,proof
func ParseDepth() {
	bs := sym.Bytes("bs", 96)
	for i := 2; i < 32; i++ {
		m := byte(0)
		switch i {
		case 2:
			m = 0x80
		case 31:
			m = 0x01
		case 30:
			m = 1
		}
		sym.Assume(bs[i]&^m == 0)
	}
	sym.Assume(bs[0] < 4)
	parse(bs)
}

// Auxiliary leaves and trailing bytes.
//
//verif:entry reach=error,proof
func ParseAux() {
	n := []int{64, 95, 96, 97, 127, 128, 129, 160}[sym.Choose("len", 8)]
	bs := sym.Bytes("bs", n)
	sym.Assume(bs[1] <= 2)
	parse(bs)
}

// Generated proofs: bytes, JSON and circuit siblings.
//
//verif:entry reach=json levels=4
func Generated() {
	levels := sym.Param("levels", 4)
	n := sym.Choose("n", 4)
	mt, _ := kit.Tree(levels)
	names := []string{"a", "b", "c"}
	for i := 0; i < n; i++ {
		_ = mt.AddEntry(kit.Entry(kit.Data2(names[i])))
	}
	p, err := mt.GenerateProof(kit.Hi(kit.Data2("q")), nil)
	sym.Assert(err == nil, "a proof is generated")
	q, err := merkletree.NewProofFromBytes(p.Bytes())
	sym.Assert(err == nil, "a generated proof parses back")
	same(p, q)
	j, err := json.Marshal(p)
	sym.Assert(err == nil, "a proof has a JSON form")
	var r merkletree.Proof
	sym.Assert(json.Unmarshal(j, &r) == nil, "the JSON form parses back")
	sym.Reach("json")
	same(p, &r)
	circom(p, levels)
	circom(p, 1)
}

// JSON text that is not a proof.
//
//verif:entry reach=error,ok
func ParseJSON() {
	var p merkletree.Proof
	t := []byte{'"'}
	switch sym.Choose("kind", 3) {
	case 0:
		t = append(t, sym.Str("s", 4)...)
	case 1:
		t = append(t, '0', 'x')
		t = append(t, sym.Str("s", 5)...)
	case 2:
		t = append(t, '0', 'x', '0', '0', '0')
		t = append(t, sym.Str("s", 2)...)
		for i := 0; i < 59; i++ {
			t = append(t, '0')
		}
	}
	t = append(t, '"')
	if p.UnmarshalJSON(t) != nil {
		sym.Reach("error")
	} else {
		sym.Reach("ok")
	}
}

// Every level's bit: set and test agree and do not disturb other levels.
//
//verif:entry reach=done
func AuxLevel() {
	bs := make([]byte, 64)
	lvl := sym.Choose("lvl", 240)
	bs[31-lvl/8] |= 1 << uint(lvl%8)
	bs[1] = byte(lvl + 1)
	sib := sym.Bytes("sib", 32)
	copy(bs[32:], sib)
	p, err := merkletree.NewProofFromBytes(bs)
	sym.Assert(err == nil, "a proof with one sibling parses")
	all := p.AllSiblings()
	sym.Assert(len(all) == lvl+1, "one sibling per level")
	for i := range all {
		if i == lvl {
			sym.Assert(sym.EqBytes(all[i][:], sib), "the sibling is at its level")
		} else {
			sym.Assert(kit.EqHash(all[i], &merkletree.HashZero), "other levels are empty")
		}
	}
	sym.Reach("done")
}
