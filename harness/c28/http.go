package c28

import (
	"errors"
	"net/http"

	"github.com/dghubble/sling"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/verifharness/kit"
	"github.com/iden3/go-iden3-core/verifharness/sym"
	validator "gopkg.in/go-playground/validator.v9"
)

// the server the reader talks to
var server struct {
	base, path, method string
	status             int
	fail               bool
	data               idenpuboffchain.PublicDataBlobs
}

//verif:model native (*github.com/dghubble/sling.Sling).Base
func slingBase(s *sling.Sling, u string) *sling.Sling {
	server.base = u
	return s
}

//verif:model native (*github.com/dghubble/sling.Sling).Path
func slingPath(s *sling.Sling, u string) *sling.Sling {
	server.path = u
	return s
}

//verif:model native (*github.com/dghubble/sling.Sling).Get
func slingGet(s *sling.Sling, u string) *sling.Sling {
	server.method = "GET" + u
	return s
}

type body struct{}

func (body) Read(b []byte) (int, error) { return 0, errors.New("no more") }
func (body) Close() error               { return nil }

//verif:model native (*github.com/dghubble/sling.Sling).Receive
func slingReceive(s *sling.Sling, ok, bad interface{}) (*http.Response, error) {
	if server.fail {
		return nil, errors.New("no answer")
	}
	if 200 <= server.status && server.status < 300 {
		*ok.(*idenpuboffchain.PublicDataBlobs) = server.data
	}
	return &http.Response{StatusCode: server.status, Body: body{}}, nil
}

//verif:model native gopkg.in/go-playground/validator.v9.New
func validatorNew() *validator.Validate { return nil }

//verif:model native (*gopkg.in/go-playground/validator.v9.Validate).Struct
func validatorStruct(v *validator.Validate, s interface{}) error { return nil }

// The reader asks for the right state and checks what it gets.
//
//verif:entry reach=ok,refused,failed
func Reader() {
	t := publish(sym.Choose("revocations", 2), sym.Choose("roots", 2))
	server.data = t.blobs
	if sym.Choose("forged", 2) == 1 {
		server.data.ClaimsTreeRoot = hash("x")
	}
	server.fail = sym.Choose("fail", 2) == 1
	server.status = []int{200, 204, 299, 199, 300, 404, 500}[sym.Choose("status", 7)]
	id := &core.ID{1, 2, 3}
	var st *merkletree.Hash
	want := id.String() + "/laststate"
	if sym.Choose("latest", 2) == 0 {
		st = &merkletree.Hash{1, 2, 3}
		want = id.String() + "/state/" + st.Hex()
	}
	url := []string{"http://h", "http://h/", ""}[sym.Choose("url", 3)]
	if url == "" {
		server.fail = true // nothing answers there
	}
	p, err := readerhttp.NewIdenPubOffChainHttp().GetPublicData(url, id, st)
	sym.Assert(url == "" || server.base == "http://h/" && server.path == want && server.method == "GET", "the data asked for is that of the identity and state")
	switch {
	case server.fail || server.status < 200 || server.status > 299:
		sym.Reach("failed")
		sym.Assert(err != nil, "a failed request is an error")
	case !kit.EqHash(&server.data.ClaimsTreeRoot, &t.blobs.ClaimsTreeRoot):
		sym.Reach("refused")
		sym.Assert(err != nil, "data that does not match its state is refused")
	default:
		sym.Reach("ok")
		sym.Assert(err == nil, "what an issuer publishes is accepted")
		accepted(t, p)
	}
}

//verif:model native github.com/dghubble/sling.New
func slingNew() *sling.Sling { return &sling.Sling{} }

//verif:model native (*github.com/dghubble/sling.Sling).New
func slingChild(s *sling.Sling) *sling.Sling { return s }
