package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// Twins: equal values made separately, over and over, in every way and for few different contents, so that anything the
// library kept of the first one would be given out again. One of them is then changed, at its root or in the middle, in
// every way that changes a value in place; the others, and those made later, are still what they were.

type twinText struct{ s string }

func (t twinText) MarshalText() ([]byte, error) { return []byte(t.s), nil }

type twinJSON struct{ s string }

func (t twinJSON) MarshalJSON() ([]byte, error) { return []byte(t.s), nil }

type twinPtrJSON struct{ s string }

func (t *twinPtrJSON) MarshalJSON() ([]byte, error) { return []byte(t.s), nil }

type twinStruct struct {
	A int               `json:"a"`
	S string            `json:"s,string"`
	L []any             `json:"l"`
	M map[string]string `json:"m"`
	T *twinStruct       `json:"t,omitempty"`
	N json.Number       `json:"n"`
}

func imp(x any) (*jv.V, error) { return jv.Import(x) }

func done(v *jv.V) (*jv.V, error) { return v, nil }

// twinMakers make the same value for the same i
var twinMakers = []struct {
	name string
	f    func(i int) (*jv.V, error)
}{
	{"NewInt", func(i int) (*jv.V, error) { return done(jv.NewInt(i)) }},
	{"NewInt64", func(i int) (*jv.V, error) { return done(jv.NewInt64(int64(-i))) }},
	{"NewInt32", func(i int) (*jv.V, error) { return done(jv.NewInt32(int32(i))) }},
	{"NewUint", func(i int) (*jv.V, error) { return done(jv.NewUint(uint(i))) }},
	{"NewUint32", func(i int) (*jv.V, error) { return done(jv.NewUint32(uint32(i))) }},
	{"NewUint64", func(i int) (*jv.V, error) { return done(jv.NewUint64(uint64(i))) }},
	{"NewFloat64", func(i int) (*jv.V, error) { return done(jv.NewFloat64(float64(i) / 2)) }},
	{"NewFloat64f", func(i int) (*jv.V, error) { return done(jv.NewFloat64f(float64(i), 'f', 2)) }},
	{"NewFloat32", func(i int) (*jv.V, error) { return done(jv.NewFloat32(float32(i) / 4)) }},
	{"NewFloat32f", func(i int) (*jv.V, error) { return done(jv.NewFloat32f(float32(i), 'e', 2)) }},
	{"NewFloat64 inf", func(i int) (*jv.V, error) { return done(jv.NewFloat64(math.Inf(i%2*2 - 1))) }},
	{"NewString", func(i int) (*jv.V, error) { return done(jv.NewString([]string{"", "a", "é", "key", "x y"}[i%5])) }},
	{"NewBytes", func(i int) (*jv.V, error) { return done(jv.NewBytes([]byte("abcdef")[:i%6])) }},
	{"NewBool", func(i int) (*jv.V, error) { return done(jv.NewBool(i%2 == 0)) }},
	{"NewNull", func(i int) (*jv.V, error) { return done(jv.NewNull()) }},
	{"NewObject", func(i int) (*jv.V, error) { return done(jv.NewObject()) }},
	{"NewObject map", func(i int) (*jv.V, error) { return done(jv.NewObject(map[string]any{"k": i, "l": []int{i}})) }},
	{"NewArray", func(i int) (*jv.V, error) { return done(jv.NewArray()) }},
	{"New nil", func(i int) (*jv.V, error) { return done(jv.New(nil)) }},
	{"New", func(i int) (*jv.V, error) {
		return done(jv.New([]any{i, nil, true, "", []int{}, map[string]int{}}[i%6]))
	}},
	{"New unsupported", func(i int) (*jv.V, error) { return done(jv.New(make(chan int))) }},
	{"Import json.Number", func(i int) (*jv.V, error) { return imp(json.Number(strconv.Itoa(i))) }},
	{"Import *json.Number", func(i int) (*jv.V, error) { n := json.Number("1e" + strconv.Itoa(i)); return imp(&n) }},
	{"Import empty json.Number", func(i int) (*jv.V, error) { return imp(json.Number("")) }},
	{"Import RawMessage", func(i int) (*jv.V, error) {
		return imp(json.RawMessage([]string{"1", `"s"`, "null", "[]", "{}", "true", `{"a":[1]}`}[i%7]))
	}},
	{"Import nil RawMessage", func(i int) (*jv.V, error) { return imp(json.RawMessage(nil)) }},
	{"Import numbers", func(i int) (*jv.V, error) {
		return imp([]any{i, int8(i), uint16(i), float32(i), float64(i), json.Number("0"), uint8(i), int64(i)}[i%8])
	}},
	{"Import bool", func(i int) (*jv.V, error) { return imp(i%2 == 0) }},
	{"Import string", func(i int) (*jv.V, error) { return imp([]string{"", "a", "b"}[i%3]) }},
	{"Import nil", func(i int) (*jv.V, error) { return imp(nil) }},
	{"Import nil things", func(i int) (*jv.V, error) {
		return imp([]any{(*int)(nil), map[string]int(nil), []int(nil), []byte(nil), (*twinStruct)(nil)}[i%5])
	}},
	{"Import time", func(i int) (*jv.V, error) { return imp(time.Unix(int64(i), 0).UTC()) }},
	{"Import big", func(i int) (*jv.V, error) { return imp(big.NewInt(int64(i))) }},
	{"Import MarshalText", func(i int) (*jv.V, error) { return imp(twinText{strconv.Itoa(i % 5)}) }},
	{"Import MarshalJSON", func(i int) (*jv.V, error) {
		return imp(twinJSON{[]string{"1", "null", `"x"`, "[1,{}]", `{"a":{"b":[]}}`}[i%5]})
	}},
	{"Import *MarshalJSON", func(i int) (*jv.V, error) {
		return imp(&twinPtrJSON{[]string{"1", "null", `"x"`, "[1,{}]", `{"a":{"b":[]}}`}[i%5]})
	}},
	{"Import bytes", func(i int) (*jv.V, error) { return imp([]byte("abcdef")[:i%6]) }},
	{"Import array", func(i int) (*jv.V, error) { return imp([3]any{i, nil, []string{}}) }},
	{"Import map", func(i int) (*jv.V, error) {
		return imp(map[any]any{"a": []any{i, "s", nil, true, json.Number("7")}, 5: map[int]bool{i: true}, "e": map[string]int{}})
	}},
	{"Import map of ints", func(i int) (*jv.V, error) { return imp(map[int]string{i: "s", -i: "t"}) }},
	{"Import struct", func(i int) (*jv.V, error) {
		return imp(twinStruct{A: i, S: "s", L: []any{nil, i, []int{}}, T: &twinStruct{M: map[string]string{}, N: "3"}})
	}},
	{"Import *V", func(i int) (*jv.V, error) {
		return imp(jv.MustUnmarshalString([]string{"1", `"s"`, "null", "[1]", `{"k":{}}`, "true"}[i%6]))
	}},
	{"Import of []*V", func(i int) (*jv.V, error) {
		return imp([]*jv.V{jv.NewInt(i), nil, jv.NewNull(), {}, jv.NewObject()})
	}},
	{"Import of a chan", func(i int) (*jv.V, error) { return imp([]any{i, make(chan int)}) }},
	{"Unmarshal", func(i int) (*jv.V, error) {
		return jv.UnmarshalString([]string{"1", "0", "true", "false", "null", `""`, `"a"`, "[]", "{}", `{"a":[{"b":null}]}`, "-1.5"}[i%11])
	}},
	{"UnmarshalNoCopy", func(i int) (*jv.V, error) {
		return jv.UnmarshalNoCopy([]byte([]string{"1", "true", "null", `""`, `"a"`, "[]", "{}", `{"a":[{"b":"c"}]}`}[i%8]))
	}},
	{"Unmarshal of bad text", func(i int) (*jv.V, error) { return jv.UnmarshalString([]string{"", "{", "[1", "tru", "1 2"}[i%5]) }},
	{"MustUnmarshal of bad text", func(i int) (*jv.V, error) { return done(jv.MustUnmarshalString([]string{"", "{", "nul"}[i%3])) }},
	{"Get of nothing", func(i int) (*jv.V, error) { return jv.NewObject().Get("k", i) }},
	{"MustGet of nothing", func(i int) (*jv.V, error) { return done(jv.NewArray().MustGet(i)) }},
	{"GetArray of nothing", func(i int) (*jv.V, error) { return jv.NewObject().GetArray("a") }},
	{"GetObject of nothing", func(i int) (*jv.V, error) { return jv.NewInt(i).GetObject("a") }},
	{"caseless MustGet of nothing", func(i int) (*jv.V, error) { return done(jv.NewObject().Caseless().MustGet("a")) }},
	{"MustSet", func(i int) (*jv.V, error) { v := jv.NewObject(); v.MustSet(i).At("a", "b"); return v, nil }},
	{"MustSetNull", func(i int) (*jv.V, error) { v := jv.NewObject(); v.MustSetNull().At("a", 0); return v, nil }},
	{"MustSetArray", func(i int) (*jv.V, error) { v := jv.NewObject(); v.MustSetArray().At("a"); return v, nil }},
	{"MustSetObject", func(i int) (*jv.V, error) { v := jv.NewArray(); v.MustSetObject().At(0); return v, nil }},
	{"MustAppend", func(i int) (*jv.V, error) { v := jv.NewObject(); v.MustAppendString("s").InTheEnd("l"); return v, nil }},
	{"set values", func(i int) (*jv.V, error) {
		v := jv.NewObject()
		v.MustSetInt(i).At("i")
		v.MustSetString("s").At("s")
		v.MustSetBool(true).At("b")
		v.MustSetNull().At("n")
		v.MustSetBytes([]byte{1}).At("y")
		v.MustSetArray().At("a")
		v.MustSetObject().At("o")
		v.MustSetFloat64(0.5).At("f")
		v.MustAppendNull().InTheEnd("a")
		v.MustAppendArray().InTheEnd("a")
		v.MustAppendObject().InTheBeginning("a")
		v.MustInsertBool(true).Before("a", 1)
		return v, nil
	}},
	{"zero V", func(i int) (*jv.V, error) { return done(&jv.V{}) }},
}

// twinImage shows what can be seen of a value
func twinImage(v *jv.V, err error) string {
	if v == nil {
		return fmt.Sprint("nil ", err)
	}
	s := fmt.Sprintf("%v %v %d %v %v %v", err, v.ValueType(), v.Len(), v.Int64(), v.Float64(), v.Bool())
	if !v.IsObject() && !v.IsArray() { // whose order is nobody's business here
		s += fmt.Sprintf(" %q", v.String())
	}
	if v.ValueType() != jv.NotExist {
		if _, ok := snap(v); !ok {
			return s + " unreadable"
		}
		s += v.MustMarshalString(jv.OptDefaultStringSequence(), jv.OptFloatInfToString("inf", "-inf"))
	}
	return s
}

var twinImages = map[string]string{} // in this process, by maker and content

// a worker's cases run one after the other, in the harness's own goroutine
func p17Twins(c *Case) {
	r := c.R
	var log []string
	type twin struct {
		v    *jv.V
		want string
		name string
	}
	var live []*twin
	edited := map[*jv.V]bool{}
	fail := func(format string, a ...any) {
		c.Note("%s", strings.Join(log, "; "))
		c.Fail(format, a...)
	}
	mk := func(k, i int) *twin {
		m := twinMakers[k]
		v, err := m.f(i)
		name := fmt.Sprintf("%s %d", m.name, i)
		log = append(log, name)
		got := twinImage(v, err)
		c.Eval(1)
		if want, ok := twinImages[name]; !ok {
			twinImages[name] = got
		} else if got != want {
			fail("%s gave %s once, and now %s", name, want, got)
		}
		if edited[v] {
			fail("%s gives a value again that it, or another, gave before and that was changed since", name)
		}
		t := &twin{v, got[strings.Index(got, " ")+1:], name}
		if err != nil {
			t.want = twinImage(v, nil)
			t.want = t.want[strings.Index(t.want, " ")+1:]
		}
		return t
	}
	texts := []string{`"CHANGED"`, `{"CHANGED":[1,2,3]}`, `[9,9,9]`, `777`, `false`, `null`}
	for step := 3 + r.Intn(6); step > 0; step-- {
		k, i := r.Intn(len(twinMakers)), r.Intn(9)
		for n := 1 + r.Intn(3); n > 0; n-- {
			live = append(live, mk(k, i))
		}
		// change one of them, in place
		j := r.Intn(len(live))
		t := live[j]
		var all []*jv.V
		for _, p := range pointers(t.v) {
			all = append(all, p)
		}
		x := t.v
		if r.Intn(2) == 0 { // anywhere in it
			at := pointers(t.v)
			var paths []string
			for path := range at {
				paths = append(paths, path)
			}
			sort.Strings(paths)
			x = at[paths[r.Intn(len(paths))]]
		}
		text := texts[r.Intn(len(texts))]
		kind := r.Intn(6)
		log = append(log, fmt.Sprintf("change %d of %s to %s", kind, t.name, text))
		var err error
		switch kind {
		case 0, 1, 2:
			err = x.UnmarshalJSON([]byte(text))
		case 3:
			err = json.Unmarshal([]byte(text), x)
		case 4:
			var b []byte
			if b, err = jv.MustUnmarshalString(text).MarshalBinary(); err == nil {
				err = x.UnmarshalBinary(b)
			}
		default:
			if x.IsObject() {
				x.MustSet("CHANGED").At("CHANGED")
			} else if x.IsArray() {
				x.MustAppend("CHANGED").InTheEnd()
			} else {
				err = x.UnmarshalJSON([]byte(text))
			}
		}
		if err != nil {
			fail("decoding %s into a value: %v", text, err)
		}
		for _, p := range all {
			edited[p] = true
		}
		for _, p := range pointers(t.v) {
			edited[p] = true
		}
		live = append(live[:j], live[j+1:]...)
		for _, o := range live {
			if edited[o.v] {
				fail("%s is the very value of %s", o.name, t.name)
			}
			got := twinImage(o.v, nil)
			got = got[strings.Index(got, " ")+1:]
			c.Eval(1)
			if got != o.want {
				fail("%s was %s, and is %s after another value was changed", o.name, o.want, got)
			}
		}
		if r.Intn(2) == 0 {
			live = append(live, mk(k, i))
		}
		c.Hit("twins")
		c.Distinct(t.name, kind, text, step)
	}
	if c.Index < 8 {
		c.Note("%s", strings.Join(log, "; "))
		c.Sample("%s", trunc(strings.Join(log, "; "), 300))
	}
}
