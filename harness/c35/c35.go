// Package c35 checks that credentials and public data survive being sent.
package c35

import (
	"encoding/json"
	"strconv"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func hash(n string) *merkletree.Hash {
	var h merkletree.Hash
	copy(h[:], sym.Bytes(n, 32))
	return &h
}

func id(n string) *core.ID {
	var i core.ID
	copy(i[:], sym.Bytes(n, len(i)))
	sym.Assume(core.CheckChecksum(i))
	return &i
}

// Proofs as trees make them: existence, absence at an empty node and absence
// at another leaf.
func mtp(n string) *merkletree.Proof {
	k := sym.Choose(n+".siblings", 3)
	bits := 0
	if k > 0 {
		bits = 1 + sym.Choose(n+".gap", 2) // the first sibling at level 0 or 1
	}
	b := make([]byte, 32)
	kind := sym.Choose(n+".kind", 3)
	if kind > 0 {
		b[0] |= 1
	}
	if kind == 2 {
		b[0] |= 2
	}
	b[1] = byte(k + bits)
	for i := 0; i < k; i++ {
		b[31] |= 1 << uint(bits+i-1)
	}
	b = append(b, sym.Bytes(n+".sib", 32*k)...)
	if kind == 2 {
		b = append(b, sym.Bytes(n+".aux", 64)...)
	}
	p, err := merkletree.NewProofFromBytes(b)
	sym.Assert(err == nil, "a proof is made")
	return p
}

func entry(n string) *merkletree.Entry {
	var d merkletree.Data
	for i := range d {
		copy(d[i][:], sym.Bytes(n+strconv.Itoa(i), 32))
	}
	return &merkletree.Entry{Data: d}
}

func existence(n string) proof.CredentialExistence {
	return proof.CredentialExistence{
		Id:                  id(n + ".id"),
		IdenStateData:       proof.IdenStateData{BlockTs: sym.I64(n + ".ts"), BlockN: sym.U64(n + ".n"), IdenState: hash(n + ".state")},
		MtpClaim:            mtp(n + ".mtp"),
		Claim:               entry(n + ".claim"),
		RevocationsTreeRoot: hash(n + ".rev"),
		RootsTreeRoot:       hash(n + ".roots"),
		IdenPubUrl:          "http://" + sym.Str(n+".url", 2),
	}
}

func eqState(a, b *proof.IdenStateData) {
	sym.Assert(a.BlockTs == b.BlockTs && a.BlockN == b.BlockN, "block and time are kept")
	sym.Assert(kit.EqHash(a.IdenState, b.IdenState), "the state is kept")
}

func eqProof(a, b *merkletree.Proof) {
	sym.Assert(a.Existence == b.Existence && len(a.Siblings) == len(b.Siblings) && (a.NodeAux == nil) == (b.NodeAux == nil), "a proof keeps its shape")
	x, y := a.Bytes(), b.Bytes()
	sym.Assert(len(x) == len(y) && sym.EqBytes(x, y), "a proof is kept")
}

func eqExistence(a, b *proof.CredentialExistence) {
	sym.Assert(sym.EqBytes(a.Id[:], b.Id[:]), "the issuer is kept")
	eqState(&a.IdenStateData, &b.IdenStateData)
	eqProof(a.MtpClaim, b.MtpClaim)
	sym.Assert(kit.EqData(a.Claim.Data, b.Claim.Data), "the claim is kept")
	sym.Assert(kit.EqHash(a.RevocationsTreeRoot, b.RevocationsTreeRoot), "the revocations root is kept")
	sym.Assert(kit.EqHash(a.RootsTreeRoot, b.RootsTreeRoot), "the roots root is kept")
	sym.Assert(a.IdenPubUrl == b.IdenPubUrl, "the address is kept")
}

//verif:entry reach=sent
func Existence() {
	c := existence("c")
	b, err := json.Marshal(&c)
	sym.Assert(err == nil, "a credential is written")
	var r proof.CredentialExistence
	sym.Assert(json.Unmarshal(b, &r) == nil, "a credential is read")
	eqExistence(&c, &r)
	sym.Reach("sent")
}

//verif:entry reach=sent
func Validity() {
	c := proof.CredentialValidity{
		CredentialExistence: proof.CredentialExistence{
			Id:                  id("id"),
			IdenStateData:       proof.IdenStateData{IdenState: hash("old")},
			MtpClaim:            mtp("mtp"),
			Claim:               entry("claim"),
			RevocationsTreeRoot: hash("rev"),
			RootsTreeRoot:       hash("oldroots"),
		},
		IdenStateData:  proof.IdenStateData{BlockTs: sym.I64("ts"), BlockN: sym.U64("n"), IdenState: hash("state")},
		MtpNotNonce:    mtp("not"),
		ClaimsTreeRoot: hash("claims"),
		RootsTreeRoot:  hash("roots"),
	}
	b, err := json.Marshal(&c)
	sym.Assert(err == nil, "a credential is written")
	var r proof.CredentialValidity
	sym.Assert(json.Unmarshal(b, &r) == nil, "a credential is read")
	eqExistence(&c.CredentialExistence, &r.CredentialExistence)
	eqState(&c.IdenStateData, &r.IdenStateData)
	eqProof(c.MtpNotNonce, r.MtpNotNonce)
	sym.Assert(kit.EqHash(c.ClaimsTreeRoot, r.ClaimsTreeRoot), "the claims root is kept")
	sym.Assert(kit.EqHash(c.RootsTreeRoot, r.RootsTreeRoot), "the roots root is kept")
	sym.Reach("sent")
}

//verif:entry reach=sent
func Blobs() {
	b := idenpuboffchain.PublicDataBlobs{IdenState: *hash("state"), ClaimsTreeRoot: *hash("claims"), RevocationsTreeRoot: *hash("rev"), RootsTreeRoot: *hash("roots"),
		RevocationsTree: sym.Bytes("revtree", sym.Choose("rl", 5)), RootsTree: sym.Bytes("rootstree", sym.Choose("ol", 5))}
	j, err := json.Marshal(&b)
	sym.Assert(err == nil, "public data is written")
	var r idenpuboffchain.PublicDataBlobs
	sym.Assert(json.Unmarshal(j, &r) == nil, "public data is read")
	sym.Assert(kit.EqHash(&b.IdenState, &r.IdenState) && kit.EqHash(&b.ClaimsTreeRoot, &r.ClaimsTreeRoot) && kit.EqHash(&b.RevocationsTreeRoot, &r.RevocationsTreeRoot) && kit.EqHash(&b.RootsTreeRoot, &r.RootsTreeRoot), "the roots are kept")
	sym.Assert(len(b.RevocationsTree) == len(r.RevocationsTree) && sym.EqBytes(b.RevocationsTree, r.RevocationsTree), "the revocations are kept")
	sym.Assert(len(b.RootsTree) == len(r.RootsTree) && sym.EqBytes(b.RootsTree, r.RootsTree), "the roots are kept")
	sym.Reach("sent")
}

// An entry that is read into one that was used is the one read.
//
//verif:entry reach=read
func Reused() {
	a, b := entry("a"), entry("b")
	sym.Assume(merkletree.CheckEntryInField(*a))
	sym.Assume(merkletree.CheckEntryInField(*b))
	_, _, err := a.HiHv()
	sym.Assert(err == nil, "an entry is hashed")
	t, err := b.MarshalText()
	sym.Assert(err == nil, "an entry is written")
	sym.Assert(a.UnmarshalText(t) == nil, "an entry is read")
	sym.Assert(kit.EqData(a.Data, b.Data), "the entry has the data read")
	hi, hv, err := a.HiHv()
	sym.Assert(err == nil, "an entry is hashed")
	wi, wv, err := b.HiHv()
	sym.Assert(err == nil, "an entry is hashed")
	sym.Assert(kit.EqHash(hi, wi) && kit.EqHash(hv, wv), "an entry has the hashes of the data read")
	sym.Reach("read")
}

// A credential that is read into one that was used is the one read.
//
//verif:entry reach=read
func ReusedCredential() {
	a, b := existence("a"), existence("b")
	for i := range a.Claim.Data { // in the field
		a.Claim.Data[i][0], a.Claim.Data[i][31] = 0, 0
		b.Claim.Data[i][0], b.Claim.Data[i][31] = 0, 0
	}
	_, _, err := a.Claim.HiHv()
	sym.Assert(err == nil, "an entry is hashed")
	j, err := json.Marshal(&b)
	sym.Assert(err == nil, "a credential is written")
	sym.Assert(json.Unmarshal(j, &a) == nil, "a credential is read")
	eqExistence(&b, &a)
	hi, hv, err := a.Claim.HiHv()
	sym.Assert(err == nil, "an entry is hashed")
	wi, wv, err := b.Claim.HiHv()
	sym.Assert(err == nil, "an entry is hashed")
	sym.Assert(kit.EqHash(hi, wi) && kit.EqHash(hv, wv), "a claim has the hashes of the data read")
	sym.Reach("read")
}

// Whatever is received for a credential is read or refused.
//
//verif:entry reach=read,refused
func Received() {
	field := []string{"Id", "IdenStateData", "MtpClaim", "Claim", "RevocationsTreeRoot", "IdenPubUrl"}[sym.Choose("field", 6)]
	var text string
	switch sym.Choose("form", 6) {
	case 0:
		text = "null"
	case 1:
		text = "7"
	case 2:
		text = "{}"
	case 3:
		text = "[]"
	case 4:
		text = `""`
	case 5:
		sym.Assume(field != "Id")
		n := sym.Choose("n", 5)
		text = `"0x` + sym.Str("text", n) + `"`
		for i := 0; i < n; i++ {
			c := text[3+i]
			sym.Assume(sym.And(c >= ' ', c < 127, c != '"', c != '\\'))
		}
	}
	var r proof.CredentialExistence
	var err error
	sym.Assert(!sym.Catch(func() { err = json.Unmarshal([]byte(`{"`+field+`":`+text+`}`), &r) }), "reading a credential does not panic")
	if err != nil {
		sym.Reach("refused")
	} else {
		sym.Reach("read")
	}
}
