// Package c24 checks the store of login nonces.
package c24

import (
	core "github.com/iden3/go-iden3-core/utils/noncedb"
	"github.com/iden3/go-iden3-core/verifharness/sym"
)

type ref struct {
	exp     int64
	aux     int
	present bool // added and neither consumed nor cleaned up
}

var names = []string{"a", "b"}

func pass() {
	t := sym.Now()
	n := sym.I64("t")
	sym.Assume(n >= t && n <= 1<<40)
	sym.SetNow(n)
}

func delta() int64 {
	d := sym.I64("delta")
	sym.Assume(d >= -(1<<20) && d <= 1<<40)
	return d
}

// Any sequence of operations with time passing before each.
//
//verif:entry reach=consumed,expired,cleaned,readded n=4
func Sequence() {
	db := core.NewNonceDb()
	r := make([]ref, len(names))
	n := sym.Param("n", 4)
	if sym.Thorough() {
		n = 5
	}
	consumed := make([]bool, len(names))
	for i := 0; i < n; i++ {
		pass()
		now := sym.Now()
		op, k := 0, 0
		if i > 0 { // the first operation is an addition
			op = sym.Choose("op", 5)
			if op != 3 {
				k = sym.Choose("nonce", len(names))
			}
		}
		e := &r[k]
		live := e.present && e.exp >= now
		switch op {
		case 0:
			d := delta()
			o := db.Add(names[k], d, nil)
			if live {
				sym.Assert(o == nil, "adding a nonce that is present is refused")
			}
			if !e.present {
				sym.Assert(o != nil, "adding a new nonce succeeds")
			}
			if o != nil {
				sym.Assert(o.Nonce == names[k] && o.Expiration == now+d && o.Aux == nil, "an added nonce has what was given")
				if consumed[k] {
					sym.Reach("readded")
				}
				*e = ref{now + d, 0, true}
			}
		case 1:
			o, ok := db.Search(names[k])
			sym.Assert(ok == live, "a nonce is found exactly while it is live")
			if ok {
				check(o, k, e)
			}
		case 2:
			o, ok := db.SearchAndDelete(names[k])
			sym.Assert(ok == live, "a nonce is consumed exactly while it is live")
			if ok {
				check(o, k, e)
				sym.Reach("consumed")
				consumed[k] = true
			} else if e.present {
				sym.Reach("expired")
			}
			e.present = false
		case 3:
			db.DeleteOld()
			for j := range r {
				if r[j].present && r[j].exp < now {
					r[j].present = false
					sym.Reach("cleaned")
				}
			}
		case 4:
			ok := db.AddAux(names[k], i)
			if live {
				sym.Assert(ok == (e.aux == 0), "auxiliary data is set once")
			}
			if !e.present {
				sym.Assert(!ok, "auxiliary data of an absent nonce is refused")
			}
			if ok {
				e.aux = i
			}
		}
	}
	pass()
	now := sym.Now()
	for k := range names {
		o, ok := db.Search(names[k])
		live := r[k].present && r[k].exp >= now
		sym.Assert(ok == live, "a nonce is found exactly while it is live")
		if ok {
			check(o, k, &r[k])
		}
		_, ok = db.SearchAndDelete(names[k])
		sym.Assert(ok == live, "a nonce is consumed exactly while it is live")
		_, ok = db.SearchAndDelete(names[k])
		sym.Assert(!ok, "a nonce is consumed once")
		_, ok = db.Search(names[k])
		sym.Assert(!ok, "a consumed nonce is not found")
	}
}

func check(o *core.NonceObj, k int, e *ref) {
	sym.Assert(o != nil && o.Nonce == names[k] && o.Expiration == e.exp, "the nonce found is the one added")
	if e.aux == 0 {
		sym.Assert(o.Aux == nil, "the nonce found has its auxiliary data")
	} else {
		a, ok := o.Aux.(int)
		sym.Assert(ok && a == e.aux, "the nonce found has its auxiliary data")
	}
}

// Three nonces with arbitrary lifetimes: clean-up takes the expired ones only.
//
//verif:entry reach=some,none,all
func Clean() {
	db := core.NewNonceDb()
	ns := []string{"a", "b", "c"}
	if sym.Thorough() {
		ns = append(ns, "d")
	}
	exp := make([]int64, len(ns))
	for i, s := range ns {
		pass()
		d := delta()
		exp[i] = sym.Now() + d
		sym.Assert(db.Add(s, d, nil) != nil, "adding a new nonce succeeds")
	}
	gone := -1
	if sym.Choose("consume", 2) == 1 {
		gone = sym.Choose("which", len(ns))
		db.SearchAndDelete(ns[gone])
	}
	pass()
	db.DeleteOld()
	now := sym.Now()
	n := 0
	for i, s := range ns {
		_, ok := db.Search(s)
		if ok {
			n++
		}
		sym.Assert(ok == (i != gone && exp[i] >= now), "clean-up leaves the live nonces")
		// a name that was cleaned up is free again
		if exp[i] < now {
			sym.Assert(db.Add(s, 1, nil) != nil, "clean-up removes the expired nonces")
		}
	}
	switch n {
	case 0:
		sym.Reach("none")
	case len(ns):
		sym.Reach("all")
	default:
		sym.Reach("some")
	}
}

// The clean-up that happens by itself every so many searches.
//
//verif:entry reach=ok
func Opportunistic() {
	db := core.NewNonceDb()
	t0 := sym.Now()
	d1, d2 := delta(), delta()
	db.Add("a", d1, nil)
	db.Add("b", d2, nil)
	for i := 0; i < 126; i++ {
		if i%2 == 0 {
			db.Search("x")
		} else {
			db.SearchAndDelete("x")
		}
	}
	pass()
	for i := 0; i < 4; i++ {
		_, ok := db.Search("a")
		sym.Assert(ok == (t0+d1 >= sym.Now()), "searching finds exactly the live nonces")
	}
	_, ok := db.Search("b")
	sym.Assert(ok == (t0+d2 >= sym.Now()), "searching finds exactly the live nonces")
	sym.Reach("ok")
}

// Generated nonces.
//
//verif:entry reach=ok
func New() {
	db := core.NewNonceDb()
	d := delta()
	o := db.New(d, 7)
	sym.Assert(o != nil && o.Expiration == sym.Now()+d && len(o.Nonce) == 66, "a generated nonce is returned")
	f, ok := db.Search(o.Nonce)
	sym.Assert(ok == (d >= 0), "a generated nonce is found while it is live")
	if ok {
		sym.Assert(f.Nonce == o.Nonce && f.Aux == 7, "a generated nonce has what was given")
	}
	sym.Assert(db.Add(o.Nonce, 1, nil) == nil, "adding a nonce that is present is refused")
	_, ok = db.SearchAndDelete(o.Nonce)
	sym.Assert(ok == (d >= 0), "a generated nonce is consumed while it is live")
	_, ok = db.SearchAndDelete(o.Nonce)
	sym.Assert(!ok, "a nonce is consumed once")
	sym.Reach("ok")
}

// Two callers consume the same nonce while a third cleans up or adds.
//
//verif:entry reach=one,other preempt=2 yields=lock,go,map
func Concurrent() {
	db := core.NewNonceDb()
	db.Add("a", 10, nil)
	var got [2]bool
	var added *core.NonceObj
	third := sym.Choose("third", 3)
	sym.Go(func() { _, got[0] = db.SearchAndDelete("a") })
	sym.Go(func() { _, got[1] = db.SearchAndDelete("a") })
	switch third {
	case 1:
		db.DeleteOld()
	case 2:
		added = db.Add("a", 20, nil)
	}
	sym.Wait()
	_, left := db.Search("a")
	n := 0
	if got[0] {
		n++
		sym.Reach("one")
	}
	if got[1] {
		n++
		sym.Reach("other")
	}
	if left {
		n++
	}
	if added == nil {
		sym.Assert(n == 1, "of concurrent callers exactly one consumes a live nonce")
	} else {
		sym.Assert(n == 2, "a nonce is consumed as often as it was added")
	}
}
