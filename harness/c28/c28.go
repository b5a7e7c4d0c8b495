// Package c28 checks what is accepted as the public data of an identity.
package c28

import (
	"bytes"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/chain"
	"github.com/iden3/go-iden3-core/verifharness/iden"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

// truth is what an issuer published.
type truth struct {
	rev, roots   *merkletree.MerkleTree
	inRev, inRot []merkletree.Data
	blobs        idenpuboffchain.PublicDataBlobs
}

func dump(mt *merkletree.MerkleTree) []byte {
	var w bytes.Buffer
	sym.Assert(mt.DumpTree(&w, nil) == nil, "a tree is dumped")
	return append([]byte{}, w.Bytes()...)
}

func hash(name string) merkletree.Hash { return merkletree.Hash(sym.Elem(name)) }

// tree has k arbitrary entries whose leaves part at the given bit.
func tree(name string, k int) (*merkletree.MerkleTree, []merkletree.Data) {
	mt, _ := kit.Tree(6)
	bit := uint(sym.Choose(name+".depth", 2))
	var l []merkletree.Data
	for i := 0; i < k; i++ {
		d := kit.Data2(name)
		if k > 1 {
			h := kit.Hi(d)
			sym.AssumeFree(h[0]&(1<<(bit+1)-1) == byte(i)<<bit)
		} else if bit > 0 {
			sym.Assume(false)
		}
		sym.Assert(mt.AddEntry(kit.Entry(d)) == nil, "an entry is added")
		l = append(l, d)
	}
	return mt, l
}

func publish(nrev, nroots int) *truth {
	t := &truth{}
	t.rev, t.inRev = tree("rev", nrev)
	t.roots, t.inRot = tree("roots", nroots)
	b := &t.blobs
	b.ClaimsTreeRoot = hash("claims")
	b.RevocationsTreeRoot, b.RootsTreeRoot = *t.rev.RootKey(), *t.roots.RootKey()
	s, err := core.CalcIdenState(&b.ClaimsTreeRoot, &b.RevocationsTreeRoot, &b.RootsTreeRoot)
	sym.Assert(err == nil, "a state is computed")
	b.IdenState = *s
	b.RevocationsTree, b.RootsTree = dump(t.rev), dump(t.roots)
	return t
}

// exact checks that a tree holds what it held at the issuer, and that only.
func exact(mt, of *merkletree.MerkleTree, l []merkletree.Data) {
	sym.Assert(kit.EqHash(mt.RootKey(), of.RootKey()), "an accepted tree has the root of the issuer's")
	for _, d := range l {
		g, err := mt.GetDataByIndex(kit.Hi(d))
		sym.Assert(err == nil && kit.EqData(*g, d), "an accepted tree holds the issuer's entries")
	}
	n := 0
	err := mt.Walk(nil, func(x *merkletree.Node) {
		if x.Type == merkletree.NodeTypeLeaf {
			n++
		}
	})
	sym.Assert(err == nil, "an accepted tree is whole")
	sym.Assert(n == len(l), "an accepted tree holds nothing else")
	q := kit.Data2("query")
	other := true
	for _, d := range l {
		other = sym.And(other, !kit.EqIndex(d, q))
	}
	sym.AssumeFree(other)
	p, err := mt.GenerateProof(kit.Hi(q), nil)
	sym.Assert(err == nil, "an accepted tree proves what it does not hold")
	sym.Assert(!p.Existence && merkletree.VerifyProof(of.RootKey(), p, kit.Hi(q), &merkletree.HashZero), "a proof of absence from an accepted tree is valid")
}

func same(a, b *idenpuboffchain.PublicDataBlobs) bool {
	return sym.And(kit.EqHash(&a.IdenState, &b.IdenState), kit.EqHash(&a.ClaimsTreeRoot, &b.ClaimsTreeRoot),
		kit.EqHash(&a.RevocationsTreeRoot, &b.RevocationsTreeRoot), kit.EqHash(&a.RootsTreeRoot, &b.RootsTreeRoot))
}

// accepted checks data accepted for a state of the issuer.
func accepted(t *truth, p *idenpuboffchain.PublicData) {
	sym.Assert(sym.And(kit.EqHash(p.IdenState, &t.blobs.IdenState), kit.EqHash(p.ClaimsTreeRoot, &t.blobs.ClaimsTreeRoot),
		kit.EqHash(p.RevocationsTreeRoot, &t.blobs.RevocationsTreeRoot), kit.EqHash(p.RootsTreeRoot, &t.blobs.RootsTreeRoot)),
		"accepted data has the issuer's roots")
	exact(p.RevocationsTree, t.rev, t.inRev)
	exact(p.RootsTree, t.roots, t.inRot)
}

// What an issuer publishes is accepted.
//
//verif:entry reach=ok n=3
func Genuine() {
	n := sym.Param("n", 3)
	t := publish(sym.Choose("revocations", n), sym.Choose("roots", n))
	p, err := idenpuboffchain.NewPublicDataFromBlobs(&t.blobs)
	sym.Assert(err == nil, "what an issuer publishes is accepted")
	accepted(t, p)
	sym.Reach("ok")
}

// The roots are arbitrary: they must be those of the trees and of the state.
//
//verif:entry reach=ok,refused
func Roots() {
	t := publish(sym.Choose("revocations", 2), sym.Choose("roots", 2))
	b := t.blobs
	switch sym.Choose("forged", 5) {
	case 0:
		b.IdenState = hash("x")
	case 1:
		b.ClaimsTreeRoot = hash("x")
	case 2:
		b.RevocationsTreeRoot = hash("x")
	case 3:
		b.RootsTreeRoot = hash("x")
	case 4:
		b.IdenState, b.ClaimsTreeRoot, b.RevocationsTreeRoot, b.RootsTreeRoot = hash("x"), hash("x"), hash("x"), hash("x")
	}
	p, err := idenpuboffchain.NewPublicDataFromBlobs(&b)
	if err != nil {
		sym.Reach("refused")
		sym.Assert(!same(&b, &t.blobs), "what an issuer publishes is accepted")
		return
	}
	sym.Reach("ok")
	s, err := core.CalcIdenState(p.ClaimsTreeRoot, p.RevocationsTree.RootKey(), p.RootsTree.RootKey())
	sym.Assert(err == nil, "a state is computed")
	sym.Assert(sym.And(kit.EqHash(s, p.IdenState), kit.EqHash(s, &b.IdenState)), "accepted roots hash to the state")
	sym.Assert(sym.And(kit.EqHash(p.RevocationsTreeRoot, p.RevocationsTree.RootKey()), kit.EqHash(p.RootsTreeRoot, p.RootsTree.RootKey())), "accepted roots are those of the trees")
	if kit.EqHash(p.IdenState, &t.blobs.IdenState) {
		accepted(t, p)
	}
}

type record struct{ k, v []byte }

func parse(b []byte) (l []record, first bool) {
	// where the format puts the length of a value
	t0, _ := kit.Tree(4)
	first = dump(t0)[1] != 0
	for len(b) > 0 {
		kl, vl := int(b[0]), int(b[1])<<8|int(b[2])
		if first {
			vl = int(b[1]) | int(b[2])<<8
		}
		l = append(l, record{b[3 : 3+kl], b[3+kl : 3+kl+vl]})
		b = b[3+kl+vl:]
	}
	return l, first
}

func format(l []record, first bool) (b []byte) {
	for _, r := range l {
		if first {
			b = append(b, byte(len(r.k)), byte(len(r.v)), byte(len(r.v)>>8))
		} else {
			b = append(b, byte(len(r.k)), byte(len(r.v)>>8), byte(len(r.v)))
		}
		b = append(append(b, r.k...), r.v...)
	}
	return b
}

// An arbitrary change to one record of one of the trees.
//
//verif:entry reach=ok,refused
func Tampered() {
	nrev, nrot := 0, 0
	rev := sym.Choose("tree", 2) == 0
	k := sym.Choose("entries", 3)
	if rev {
		nrev = k
	} else {
		nrot = k
	}
	t := publish(nrev, nrot)
	b := t.blobs
	p := &b.RootsTree
	if rev {
		p = &b.RevocationsTree
	}
	l, first := parse(*p)
	i := sym.Choose("record", len(l))
	dup := func() { l = append(append(append([]record{}, l[:i]...), l[i]), l[i:]...) }
	node := func() []byte {
		// a record of a node of some kind with arbitrary contents
		n := []int{1, 65, 257}[sym.Choose("kind", 3)]
		v := sym.Bytes("v", n)
		if sym.Choose("typed", 2) == 1 {
			v[0] = byte(map[int]int{1: int(merkletree.NodeTypeEmpty), 65: int(merkletree.NodeTypeMiddle), 257: int(merkletree.NodeTypeLeaf)}[n])
		}
		return v
	}
	switch sym.Choose("change", 6) {
	case 0: // missing
		l = append(append([]record{}, l[:i]...), l[i+1:]...)
	case 1: // other contents
		l[i].v = sym.Bytes("v", len(l[i].v))
	case 2: // other name
		l[i].k = sym.Bytes("k", len(l[i].k))
	case 3: // another kind of node under the same name
		l[i].v = node()
	case 4: // a second record of the name, in front
		dup()
		l[i].v = sym.Bytes("v", len(l[i].v))
	case 5: // a second record of the name, behind
		dup()
		l[i+1].v = node()
	}
	*p = format(l, first)
	d, err := idenpuboffchain.NewPublicDataFromBlobs(&b)
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("ok")
	accepted(t, d)
}

// A record the issuer did not publish.
//
//verif:entry reach=ok
func Extra() {
	t := publish(1, 0)
	b := t.blobs
	l, first := parse(b.RevocationsTree)
	n := []int{0, 1, 32, 65, 257}[sym.Choose("len", 5)]
	k := []int{0, 11, 32}[sym.Choose("klen", 3)]
	at := sym.Choose("at", len(l)+1)
	x := record{sym.Bytes("k", k), sym.Bytes("v", n)}
	l = append(append(append([]record{}, l[:at]...), x), l[at:]...)
	b.RevocationsTree = format(l, first)
	d, err := idenpuboffchain.NewPublicDataFromBlobs(&b)
	if err != nil {
		return
	}
	sym.Reach("ok")
	accepted(t, d)
}

// Short arbitrary data is no tree.
//
//verif:entry reach=refused
func Garbage() {
	t := publish(1, 1)
	b := t.blobs
	n := 2
	x := sym.Bytes("x", sym.Choose("len", n+1))
	if sym.Choose("tree", 2) == 0 {
		b.RevocationsTree = x
	} else {
		b.RootsTree = x
	}
	_, err := idenpuboffchain.NewPublicDataFromBlobs(&b)
	sym.Assert(err != nil, "data that holds no root is refused")
	sym.Reach("refused")
}

// reader hands out whatever it was given.
type reader struct {
	p   *idenpuboffchain.PublicData
	url string
	id  core.ID
	st  merkletree.Hash
}

func (r *reader) GetPublicData(url string, id *core.ID, st *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
	sym.Assert(url == r.url && *id == r.id, "the data asked for is that of the issuer")
	sym.Assert(st == nil || kit.EqHash(st, &r.st), "the data asked for is that of the state on chain")
	return r.p, nil
}

func revocations(n int) (*merkletree.MerkleTree, []uint32) {
	mt, _ := kit.Tree(6)
	var l []uint32
	for i := 0; i < n; i++ {
		x := sym.U32("revoked")
		e := claims.NewLeafRevocationsTree(x, 0xffffffff).Entry()
		if n > 1 {
			h := kit.Hi(e.Data)
			sym.AssumeFree(h[0]&1 == byte(i))
		}
		sym.Assert(mt.AddEntry(e) == nil, "an entry is added")
		l = append(l, x)
	}
	return mt, l
}

// A holder meets a reader that may hand out data of any other state.
//
//verif:entry reach=valid,revoked,refused
func Holder() {
	e := iden.New(issuer.Config{MaxLevelsClaimsTree: 6, MaxLevelsRevocationTree: 6, MaxLevelsRootsTree: 6, GenesisOnly: true})
	rev, nonces := revocations(sym.Choose("revocations", 3))
	roots, _ := kit.Tree(6)
	if sym.Choose("roots", 2) == 1 {
		sym.Assert(roots.AddEntry(kit.Entry(kit.Data2("root"))) == nil, "an entry is added")
	}
	cl, x, y, z := hash("claims"), *rev.RootKey(), *roots.RootKey(), hash("state")
	if sym.Choose("lies", 2) == 1 {
		x, y = hash("x"), hash("y")
	}
	rd := &reader{url: "url", st: z, p: &idenpuboffchain.PublicData{IdenState: &z, ClaimsTreeRoot: &cl, RevocationsTreeRoot: &x,
		RevocationsTree: rev, RootsTreeRoot: &y, RootsTree: roots}}
	copy(rd.id[:], sym.Bytes("id", 31))
	onChain := hash("onchain")
	rd.st = onChain
	ch := &chain.Fixed{Records: []chain.Record{{ID: rd.id, Block: sym.U64("block"), Ts: sym.I64("ts"), State: onChain}}}
	h, err := holder.Load(e.F, nil, ch, nil, nil, rd)
	sym.Assert(err == nil, "a holder opens")
	nonce := sym.U32("nonce")
	c := claims.NewClaimBasic([claims.IndexSlotLen]byte{}, [claims.ValueSlotLen]byte{})
	c.Metadata().RevNonce = nonce
	ce := &proof.CredentialExistence{Id: &rd.id, Claim: c.Entry(), IdenPubUrl: "url"}
	want, err := core.CalcIdenState(&cl, rev.RootKey(), roots.RootKey())
	sym.Assert(err == nil, "a state is computed")
	revoked := false
	for _, n := range nonces {
		revoked = sym.Or(revoked, n == nonce)
	}
	v, err := h.HolderGetCredentialValidity(ce)
	switch {
	case !kit.EqHash(want, &onChain):
		sym.Reach("refused")
		sym.Assert(err != nil, "data of another state is refused")
	case revoked:
		sym.Reach("revoked")
		sym.Assert(err == holder.ErrRevokedClaim, "a revoked claim is not valid")
	default:
		sym.Reach("valid")
		sym.Assert(err == nil, "a claim that was not revoked is valid")
		sym.Assert(v.IdenStateData.BlockN == ch.Records[0].Block && v.IdenStateData.BlockTs == ch.Records[0].Ts && kit.EqHash(v.IdenStateData.IdenState, &onChain), "validity is shown for the state on chain")
		sym.Assert(kit.EqHash(v.ClaimsTreeRoot, &cl) && kit.EqHash(v.RootsTreeRoot, roots.RootKey()), "validity is shown with the issuer's roots")
		hi := kit.Hi(claims.NewLeafRevocationsTree(nonce, 0xffffffff).Entry().Data)
		sym.Assert(!v.MtpNotNonce.Existence && merkletree.VerifyProof(rev.RootKey(), v.MtpNotNonce, hi, &merkletree.HashZero), "the proof that the claim is not revoked is valid")
	}
}
