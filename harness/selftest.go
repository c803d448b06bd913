package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
)

// selftest cross-checks the reference parser with encoding/json, so that a verdict never rests on an
// oracle that is itself wrong. It does not touch the library under test.
func selftest() {
	r := newRand(42)
	n, valid := 0, 0
	check := func(b []byte) {
		n++
		res := refParse(b, false)
		std := json.Valid(b)
		if res.ok != std && strings.ToValidUTF8(string(b), "") == string(b) {
			fatalf("reference parser says %v, encoding/json says %v for %q", res.ok, std, b)
		}
		if !res.ok {
			return
		}
		valid++
		if l := refParse(b, true); !l.ok || !l.v.equal(res.v) {
			fatalf("the lenient reference parser disagrees with the strict one on %q", b)
		}
		if res.lone {
			return
		}
		d := json.NewDecoder(strings.NewReader(string(b)))
		d.UseNumber()
		var x any
		if err := d.Decode(&x); err != nil {
			fatalf("encoding/json cannot decode %q: %v", b, err)
		}
		if got := res.v.goValue(); !reflect.DeepEqual(got, x) {
			fatalf("reference parser and encoding/json read %q differently:\n%#v\n%#v", b, got, x)
		}
	}
	g := &genCfg{maxDepth: 4, maxKids: 5}
	for i := 0; i < 4000; i++ {
		t := genTree(r, g, 0)
		b := render(r, t, genStyle(r))
		res := refParse(b, false)
		if !res.ok || !res.v.equal(t) {
			fatalf("rendering of a generated value does not parse back: %s\n%q", t.canon(), b)
		}
		check(b)
		for j := 0; j < 4; j++ {
			check(mutate(r, b))
		}
	}
	for i := 0; i < wordCount(8, 5); i++ {
		w := nthWord(i, []string{"0", "1", "9", "-", "+", ".", "e", "E"})
		if validNumberText(string(w)) != json.Valid(w) {
			fatalf("number grammar disagrees with encoding/json on %q", w)
		}
	}
	if valid < 1000 {
		fatalf("selftest saw too few valid texts: %d", valid)
	}
	fmt.Fprintf(os.Stderr, "selftest: reference parser agrees with encoding/json on %d texts (%d valid)\n", n, valid)
}

// goValue converts to what encoding/json would decode into an any with UseNumber
func (r *RV) goValue() any {
	switch r.K {
	case kBool:
		return r.B
	case kNum:
		return json.Number(r.N)
	case kStr:
		return r.S
	case kArr:
		a := make([]any, len(r.A))
		for i, x := range r.A {
			a[i] = x.goValue()
		}
		return a
	case kObj:
		m := make(map[string]any, len(r.O))
		for k, x := range r.O {
			m[k] = x.goValue()
		}
		return m
	}
	return nil
}

func itoa(i int) string { return strconv.Itoa(i) }
