package main

import (
	"encoding/json"
	"fmt"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// p19Lists: one list of keys, in memory of the caller's that holds more than the list, with keys that are there several
// times, is used in several options, many times. It stays as it is, to the end of its memory, and every use of it gives
// what a use of a fresh copy gives.
func p19Lists(c *Case) {
	r := c.R
	pool := []string{"a", "b", "c", "d", "e", "A", "", "é", "aa", "10", "2", genString(r)}
	n := 1 + r.Intn(8) // none is no order
	if r.Intn(20) == 0 {
		n = 30 + r.Intn(100)
	}
	whole := make([]string, n+r.Intn(12))
	for i := range whole {
		whole[i] = pool[r.Intn(len(pool))]
	}
	pre := r.Intn(len(whole) - n + 1)
	list := whole[pre : pre+n]
	if r.Intn(4) == 0 {
		list = whole[pre : pre+n : pre+n]
	}
	image := fmt.Sprintf("%q", whole)
	dups := map[string]int{}
	for _, k := range list {
		if dups[k]++; dups[k] == 2 {
			c.Hit("listed_twice")
		}
	}
	fresh := func() []string { return append([]string(nil), list...) }

	var docs []*jv.V
	for i := 1 + r.Intn(3); i > 0; i-- {
		g := &genCfg{maxDepth: 3, maxKids: 6, keys: pool}
		t := genDoc(r, g)
		docs = append(docs, buildV(r, t, r.Intn(3)))
	}
	c.Note("list %q of %s; documents %s", list, image, trunc(docs[0].MustMarshalString(jv.OptSetSequence()), 1500))
	plain := jv.OptFloatNaNToNull()
	inf := jv.OptFloatInfToNull()
	fn := jv.OptKeySequence(list)
	st := jv.Opt{MarshalKeySequence: list}
	pst := &jv.Opt{MarshalKeySequence: list}
	first := map[*jv.V]string{}
	for _, v := range docs {
		first[v] = v.MustMarshalString(jv.OptKeySequence(fresh()), plain, inf)
	}
	defer jv.ResetDefaultMarshalOptions()
	var how []string
	for k := 2 + r.Intn(8); k > 0; k-- {
		v := docs[r.Intn(len(docs))]
		var s string
		var err error
		x := r.Intn(8)
		switch x {
		case 0:
			s, err = v.MarshalString(fn, plain, inf)
		case 1:
			s, err = v.MarshalString(st, plain, inf)
		case 2:
			s, err = v.MarshalString(pst, plain, inf)
		case 3:
			s, err = v.MarshalString(plain, fn, fn, inf)
		case 4:
			s, err = v.MarshalString(jv.OptSetSequence(), jv.OptKeySequence(list), plain, inf)
		case 5:
			jv.SetDefaultMarshalOptions(fn, plain, inf)
			s, err = v.MarshalString()
		case 6:
			jv.SetDefaultMarshalOptions(pst, plain, inf)
			var b []byte
			b, err = json.Marshal(v)
			s = string(b)
			if err == nil && s != first[v] { // encoding/json has escapes of its own
				s = jv.MustUnmarshalString(s).MustMarshalString(jv.OptKeySequence(fresh()), plain, inf)
			}
		default:
			jv.SetDefaultMarshalOptions(st, plain, inf)
			s, err = v.MarshalString(fn)
		}
		how = append(how, itoa(x))
		if x > 4 && r.Intn(2) == 0 {
			jv.ResetDefaultMarshalOptions()
		}
		c.Eval(1)
		if now := fmt.Sprintf("%q", whole); now != image {
			c.Fail("after the uses %v the memory of the list is %s", how, now)
		}
		if err != nil {
			c.Fail("use %d of the list %q: %v", x, list, err)
		}
		if s != first[v] {
			c.Fail("after the uses %v of the list %q the output is %s, a fresh list gives %s", how, list, trunc(s, 1500), trunc(first[v], 1500))
		}
	}
	if len(st.MarshalKeySequence) != n || len(pst.MarshalKeySequence) != n || st.MarshalLessFunc != nil || pst.MarshalLessFunc != nil {
		c.Fail("the structures changed: %d, %d of %d keys", len(st.MarshalKeySequence), len(pst.MarshalKeySequence), n)
	}
	c.Hit("lists")
	c.Distinct(image, strings.Join(how, ","))
}
