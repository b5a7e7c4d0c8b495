// Package c13 checks claim metadata.
package c13

import (
	"encoding/json"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

func header(known bool) (h claims.ClaimHeader) {
	if known {
		switch sym.Choose("kind", 3) {
		case 0:
			return claims.ClaimHeaderBasic
		case 1:
			return claims.ClaimHeaderKeyBabyJub
		}
		return claims.ClaimHeaderOtherIden
	}
	copy(h.Type[:], sym.Bytes("type", 8))
	h.Subject = claims.ClaimSubject(sym.Choose("subject", 3))
	h.SubjectPos = claims.ClaimSubjectPos(sym.Choose("pos", 2))
	h.Expiration = sym.Choose("hasexp", 2) == 1
	h.Version = sym.Choose("hasver", 2) == 1
	return h
}

func meta(known bool) claims.Metadata {
	h := header(known)
	m := claims.NewMetadata(h)
	if h.Subject != claims.ClaimSubjectSelf {
		var id core.ID
		copy(id[:], sym.Bytes("id", len(id)))
		m.Subject = &id
	}
	if h.Expiration {
		m.Expiration = sym.I64("exp")
	}
	if h.Version {
		m.Version = sym.U32("ver")
	}
	m.RevNonce = sym.U32("nonce")
	return m
}

func check(a, b *claims.Metadata) {
	x, y := a.Header(), b.Header()
	sym.Assert(x.Type == y.Type, "the type is read back")
	sym.Assert(x.Subject == y.Subject, "the kind of subject is read back")
	sym.Assert(x.SubjectPos == y.SubjectPos, "the subject position is read back")
	sym.Assert(x.Expiration == y.Expiration, "whether there is an expiration is read back")
	sym.Assert(x.Version == y.Version, "whether there is a version is read back")
	sym.Assert((a.Subject == nil) == (b.Subject == nil), "whether there is a subject is read back")
	if a.Subject != nil {
		sym.Assert(sym.EqBytes(a.Subject[:], b.Subject[:]), "the subject is read back")
	}
	sym.Assert(a.Expiration == b.Expiration, "the expiration is read back")
	sym.Assert(a.Version == b.Version, "the version is read back")
	sym.Assert(a.RevNonce == b.RevNonce, "the revocation nonce is read back")
}

// All metadata over arbitrary data: what was given is read, the rest stays.
//
//verif:entry reach=ok
func Entry() {
	d := kit.Data("d")
	m := meta(false)
	e := kit.Entry(d)
	m.Marshal(e)
	var r claims.Metadata
	r.Unmarshal(e)
	check(&r, &m)
	sym.Assert(claims.GetRevocationNonce(e) == m.RevNonce, "the nonce is where the issuer looks for it")
	h := m.Header()
	sym.Assert(r.Type() == h.Type, "the type is the header's")
	// the bytes that belong to no given value are those of before
	used := func(i, j int) bool {
		switch {
		case i == 0 && j <= claims.ClaimTypeLen: // type, flags
			return true
		case i == 0 && h.Version && j >= claims.ClaimHeaderLen && j < claims.ClaimHeaderLen+4:
			return true
		case i == 4 && j < claims.ClaimRevNonceLen:
			return true
		case i == 4 && h.Expiration && j >= 4 && j < 12:
			return true
		case h.Subject != claims.ClaimSubjectSelf && (i == 1 && h.SubjectPos == claims.ClaimSubjectPosIndex || i == 5 && h.SubjectPos == claims.ClaimSubjectPosValue) && j < 31:
			return true
		}
		return false
	}
	ok := true
	for i := range d {
		for j := range d[i] {
			if !used(i, j) {
				ok = sym.And(ok, d[i][j] == e.Data[i][j])
			}
		}
	}
	sym.Assert(ok, "bytes that hold no metadata are left alone")
	sym.Reach("ok")
}

// Reading any entry.
//
//verif:entry reach=ok
func Read() {
	var d merkletree.Data
	for i := range d {
		copy(d[i][:], sym.Bytes("d", 32))
	}
	e := kit.Entry(d)
	var m claims.Metadata
	sym.Assert(!sym.Catch(func() { m.Unmarshal(e) }), "reading metadata does not panic")
	sym.Assert(kit.EqData(e.Data, d), "reading metadata leaves the entry")
	sym.Assert(m.RevNonce == claims.GetRevocationNonce(e), "the nonce is the entry's")
	f := kit.Entry(d)
	sym.Assert(!sym.Catch(func() { m.Marshal(f) }), "writing what was read does not panic")
	sym.Assert(kit.EqData(f.Data, d), "writing what was read changes nothing")
	var n claims.Metadata
	n.Unmarshal(f)
	check(&n, &m)
	sym.Reach("ok")
}

// The JSON form.
//
//verif:entry reach=ok,conflict
func JSON() {
	m := meta(sym.Choose("known", 2) == 1)
	if m.Subject != nil {
		var typ [2]byte
		var gen [27]byte
		copy(typ[:], m.Subject[:])
		copy(gen[:], m.Subject[2:])
		*m.Subject = core.NewID(typ, gen)
		sym.Assume(core.CheckChecksum(*m.Subject))
	}
	j, err := json.Marshal(m)
	sym.Assert(err == nil, "metadata has a JSON form")
	var r claims.Metadata
	err = json.Unmarshal(j, &r)
	h := m.Header()
	for _, k := range []claims.ClaimHeader{claims.ClaimHeaderBasic, claims.ClaimHeaderKeyBabyJub, claims.ClaimHeaderOtherIden} {
		if h.Type == k.Type && h != k {
			sym.Reach("conflict")
			sym.Assert(err != nil, "a header that contradicts its type is refused")
			return
		}
	}
	sym.Assert(err == nil, "the JSON form is parsed")
	check(&r, &m)
	sym.Reach("ok")
}

// A JSON form without the subject it announces.
//
//verif:entry reach=refused,ok
func JSONSubject() {
	for _, s := range []string{"Self", "OtherIden", "Object"} {
		for _, p := range []string{"Index", "Value"} {
			j := []byte(`{"Type":"hex:0x0102030405060708","Subject":"` + s + `","SubjectPos":"` + p + `","ID":null,"Expiration":null,"Version":null,"RevNonce":7}`)
			var m claims.Metadata
			if err := json.Unmarshal(j, &m); err != nil {
				sym.Reach("refused")
				continue
			}
			sym.Reach("ok")
			e := &merkletree.Entry{}
			sym.Assert(!sym.Catch(func() { m.Marshal(e) }), "metadata that was accepted can be written")
			var r claims.Metadata
			r.Unmarshal(e)
			check(&r, &m)
		}
	}
}

// Setting one value of a claim's metadata leaves the others and the data.
//
//verif:entry reach=ok
func Setters() {
	var c claims.Claimer
	var id core.ID
	copy(id[:], sym.Bytes("id", len(id)))
	switch sym.Choose("claim", 4) {
	case 0:
		var is [claims.IndexSlotLen]byte
		var vs [claims.ValueSlotLen]byte
		copy(is[:], sym.Bytes("is", len(is)))
		copy(vs[:], sym.Bytes("vs", len(vs)))
		c = claims.NewClaimBasic(is, vs)
	case 1:
		var is [claims.IndexSubjectSlotLen]byte
		var vs [claims.ValueSlotLen]byte
		copy(is[:], sym.Bytes("is", len(is)))
		copy(vs[:], sym.Bytes("vs", len(vs)))
		c = claims.NewClaimOtherIden(&id, is, vs)
	case 2:
		m := meta(false)
		e := kit.Entry(kit.Data("d"))
		m.Marshal(e)
		c = claims.NewClaimGeneric(e)
	case 3:
		m := meta(false)
		e := kit.Entry(kit.Data("d"))
		m.Marshal(e)
		if _, _, err := e.HiHv(); err != nil {
			return
		}
		c = claims.NewClaimGeneric(e)
	}
	before := c.Entry().Data
	var m0 claims.Metadata
	m0.Unmarshal(c.Entry())
	m := c.Metadata()
	h := m.Header()
	check(m, &m0)
	off, n, slot := 0, 4, 4
	switch sym.Choose("set", 4) {
	case 0:
		m.RevNonce = sym.U32("nonce2")
		m0.RevNonce = m.RevNonce
	case 1:
		if !h.Expiration {
			return
		}
		m.Expiration = sym.I64("exp2")
		m0.Expiration = m.Expiration
		off, n = 4, 8
	case 2:
		if !h.Version {
			return
		}
		m.Version = sym.U32("ver2")
		m0.Version = m.Version
		off, n, slot = 12, 4, 0
	case 3:
		if h.Subject == claims.ClaimSubjectSelf {
			return
		}
		var id2 core.ID
		copy(id2[:], sym.Bytes("id2", len(id2)))
		m.Subject = &id2
		m0.Subject = &id2
		off, n, slot = 0, 31, 1
		if h.SubjectPos == claims.ClaimSubjectPosValue {
			slot = 5
		}
	}
	e := c.Entry()
	var r claims.Metadata
	r.Unmarshal(e)
	check(&r, &m0)
	ok := true
	for i := range before {
		for j := range before[i] {
			if i != slot || j < off || j >= off+n {
				ok = sym.And(ok, before[i][j] == e.Data[i][j])
			}
		}
	}
	sym.Assert(ok, "the rest of the entry stays")
	hi, hv, err := e.HiHv()
	fi, fv, err2 := kit.Entry(e.Data).HiHv()
	sym.Assert((err == nil) == (err2 == nil), "the entry hashes like its data")
	if err == nil {
		sym.Assert(sym.And(kit.EqHash(hi, fi), kit.EqHash(hv, fv)), "the entry's hashes are those of its data")
	}
	sym.Reach("ok")
}
