package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// What the code inside a callback, which the library calls in the middle of its own work, may do with the library: use
// it. Every use has an outcome that is known here, and none of them touches what the outer call works on but by reading.

const maxMeddle = 2

// meddler is one callback's way to use the library inside itself
type meddler struct {
	c     *Case
	depth int // how many callbacks are around this one
	given []*jv.V
}

// meddle uses the library once, at random. given are values that may be read.
func (c *Case) meddle(given ...*jv.V) {
	if c.meddled++; c.meddled < 8 {
		(&meddler{c: c, given: given}).one()
	}
}

func (m *meddler) deeper() {
	if m.depth < maxMeddle && m.c.meddled < 20 && m.c.R.Intn(4) == 0 {
		m.c.meddled += 2
		(&meddler{m.c, m.depth + 1, m.given}).one()
	}
}

func (m *meddler) fail(format string, a ...any) {
	m.c.Fail("inside a callback: %s", fmt.Sprintf(format, a...))
}

func (m *meddler) one() {
	c, r := m.c, m.c.R
	c.Hit("inside_callbacks")
	c.Eval(1)
	switch r.Intn(14) {
	case 0, 1: // sort another array, with callbacks of its own
		n := []int{2, 5, 16, 20, 33, 70}[r.Intn(6)]
		a := jv.NewArray()
		sum := 0
		for i := 0; i < n; i++ {
			k := r.Intn(3 * n)
			sum += k
			a.MustAppendInt(k).InTheEnd()
		}
		a.SortArray(func(x, y *jv.V) bool {
			m.deeper()
			return x.Int() < y.Int()
		})
		for i := 0; i < n; i++ {
			x := a.MustGet(i)
			sum -= x.Int()
			if i > 0 && x.Int() < a.MustGet(i-1).Int() {
				m.fail("an array sorted there is not sorted: %s", a.MustMarshalString())
			}
		}
		if sum != 0 || a.Len() != n {
			m.fail("an array of %d sorted there: %s", n, a.MustMarshalString())
		}
	case 2, 3: // marshal another object in an order by a function, with callbacks of its own
		n := 2 + r.Intn(9)
		o := jv.NewObject()
		want := make([]string, n)
		for _, i := range r.Perm(n) {
			k := string(rune('a' + i))
			want[n-1-i] = `"` + k + `":{"y":` + itoa(i) + `,"x":[]}`
			o.MustSet(jv.MustUnmarshalString(`{"x":[],"y":` + itoa(i) + `}`)).At(k)
		}
		s := o.MustMarshalString(jv.OptKeySequenceWithLessFunc(func(p *jv.ParentInfo, a, b string, _, _ *jv.V) bool {
			m.deeper()
			return a > b
		}))
		if w := "{" + strings.Join(want, ",") + "}"; s != w {
			m.fail("an object marshalled there in descending order is %s, want %s", s, w)
		}
	case 4: // in other orders
		o := jv.MustUnmarshalString(`{"b":{"d":1,"c":[2,{"f":3,"e":4}]},"a":"\u00e9","":null}`)
		s := []string{o.MustMarshalString(jv.OptDefaultStringSequence()),
			o.MustMarshalString(jv.OptSetSequence(), jv.OptIndent("", "")),
			o.MustMarshalString(jv.OptKeySequence([]string{"f", "b", "a", ""}), jv.OptOmitNull(true), jv.OptUTF8())}
		s[1] = strings.Join(strings.Fields(s[1]), "")
		for i, w := range []string{`{"":null,"a":"\u00E9","b":{"c":[2,{"e":4,"f":3}],"d":1}}`,
			`{"b":{"d":1,"c":[2,{"f":3,"e":4}]},"a":"\u00E9","":null}`,
			`{"b":{"c":[2,{"f":3,"e":4}],"d":1},"a":"é"}`} {
			if s[i] != w {
				m.fail("a document marshalled there (%d) is %s, want %s", i, s[i], w)
			}
		}
	case 5: // fail
		o := jv.NewObject()
		o.MustSetFloat64(genNaN(r)).At("n")
		o.MustSet(jv.NewInt(1)).At("m")
		if b, err := o.Marshal(jv.OptDefaultStringSequence()); err == nil || len(b) > 0 {
			m.fail("a NaN marshals to %s, %v", b, err)
		}
	case 6: // parse, well and badly
		t := genDoc(r, &genCfg{maxDepth: 3, maxKids: 4})
		b := []byte(renderPlain(t))
		v, err := jv.Unmarshal(b)
		if err != nil {
			m.fail("Unmarshal of %s: %v", trunc(string(b), 500), err)
		}
		if d := diffV(v, t); d != "" {
			m.fail("a document parsed there: %s", d)
		}
		if v, err = jv.UnmarshalString(`{"a":[1,{"b":tru}]}`); err == nil || v.ValueType() != jv.NotExist {
			m.fail("broken text parses to %v, %v", v, err)
		}
	case 7: // import and export
		type pair struct {
			A int            `json:"a"`
			B map[string]any `json:"b,omitempty"`
			C *pair          `json:"c"`
		}
		p := pair{1, map[string]any{"x": "y"}, &pair{A: 2}}
		v, err := jv.Import(p)
		if err != nil {
			m.fail("Import: %v", err)
		}
		if s := v.MustMarshalString(jv.OptDefaultStringSequence()); s != `{"a":1,"b":{"x":"y"},"c":{"a":2,"c":null}}` {
			m.fail("imported there: %s", s)
		}
		var q pair
		if err := v.Export(&q); err != nil || q.C == nil || q.C.A != 2 || q.B["x"] != "y" {
			m.fail("exported there: %+v, %v", q, err)
		}
	case 8: // look things up
		v := jv.MustUnmarshalString(`{"Aa":{"É":[5,6]},"b":1}`)
		if x, err := v.Caseless().Get("aA", "é", -1); err != nil || x.Int() != 6 {
			m.fail("caseless Get gives %v, %v", x, err)
		}
		if x, err := v.Get("aA"); !errors.Is(err, jv.ErrNotFound) || x.ValueType() != jv.NotExist {
			m.fail("Get gives %v, %v", x, err)
		}
		if !v.Equal(jv.MustUnmarshalString(`{"b":1.0,"Aa":{"É":[5,6]}}`)) || !beta.Contains(v, map[string]any{"b": 1}) || beta.Contains(v, 7, "Aa", "É") {
			m.fail("comparisons are wrong")
		}
	case 9: // edit
		v := jv.NewObject()
		for i := 0; i < 20; i++ {
			v.MustSet(i).At("a", i)
		}
		v.MustDelete("a", 3)
		v.MustInsert("x").Before("a", 0)
		if s := v.MustMarshalString(); s != `{"a":["x",0,1,2,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19]}` {
			m.fail("edited there: %s", s)
		}
	case 10: // go through things
		v := jv.MustUnmarshalString(`{"a":1,"b":[1,2,3],"c":3}`)
		n := 0
		v.RangeObjects(func(_ string, x *jv.V) bool {
			m.deeper()
			n += x.Int() + x.Len()
			return true
		})
		v.MustGet("b").RangeArray(func(_ int, x *jv.V) bool {
			m.deeper()
			n += x.Int()
			return n < 10
		})
		ks := ""
		v.RangeObjectsBySetSequence(func(k string, _ *jv.V) bool {
			m.deeper()
			ks += k
			return true
		})
		for k := range v.ForRangeObj() {
			n += len(k)
		}
		if n != 13 || ks != "abc" {
			m.fail("iterations there count %d, %q", n, ks)
		}
	default: // read what is given
		if len(m.given) == 0 {
			return
		}
		v := m.given[r.Intn(len(m.given))]
		if v == nil || v.Len() > 300 {
			return
		}
		t, ok := snap(v)
		if !ok {
			m.fail("the value given is not readable")
		}
		o := []jv.Option{jv.OptDefaultStringSequence(), jv.OptFloatNaNToNull(), jv.OptFloatInfToNull()}
		if r.Intn(2) == 0 {
			o[0] = jv.OptKeySequenceWithLessFunc(func(_ *jv.ParentInfo, a, b string, _, _ *jv.V) bool {
				m.deeper()
				return a < b
			})
		}
		b, err := v.Marshal(o...)
		if err != nil || !json.Valid(b) {
			m.fail("the value given marshals to %s, %v", trunc(string(b), 500), err)
		}
		if !hasNonFinite(t) && reparses(t) {
			w, err := jv.Unmarshal(b)
			if err != nil || !w.Equal(v) || !v.Equal(w) {
				m.fail("the value given marshals to %s (%v), which is not equal to it", trunc(string(b), 500), err)
			}
		}
	}
}

// errThrown is what a callback of the harness panics with, to leave the library in the middle of its work
type errThrown struct{ n int }

// thrown runs f, and tells if the callback's own panic came out of it. Every other panic goes on.
func thrown(f func()) (out bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(errThrown); !ok {
				panic(e)
			}
			out = true
		}
	}()
	f()
	return false
}
