package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// makers make small values in every way; each gives a value, or a byte slice or string that the library handed out
var makers = []struct {
	name string
	f    func(r *rand.Rand, i int) (*jv.V, []byte, string)
}{
	{"NewInt64", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return jv.NewInt64(r.Int63() >> uint(r.Intn(60))), nil, ""
	}},
	{"NewInt", func(r *rand.Rand, i int) (*jv.V, []byte, string) { return jv.NewInt(i), nil, "" }},
	{"NewInt32", func(r *rand.Rand, i int) (*jv.V, []byte, string) { return jv.NewInt32(-int32(i)), nil, "" }},
	{"NewUint64", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return jv.NewUint64(r.Uint64() >> uint(r.Intn(60))), nil, ""
	}},
	{"NewUint32", func(r *rand.Rand, i int) (*jv.V, []byte, string) { return jv.NewUint32(uint32(i)), nil, "" }},
	{"NewFloat64", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return jv.NewFloat64(r.NormFloat64() * 1e6), nil, ""
	}},
	{"NewFloat64f", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return jv.NewFloat64f(r.NormFloat64(), 'f', 6), nil, ""
	}},
	{"NewFloat32", func(r *rand.Rand, i int) (*jv.V, []byte, string) { return jv.NewFloat32(r.Float32()), nil, "" }},
	{"NewString", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return jv.NewString("text number " + strconv.Itoa(i)), nil, ""
	}},
	{"NewBytes", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return jv.NewBytes([]byte{byte(i), byte(i >> 8), byte(r.Intn(256)), 1}), nil, ""
	}},
	{"NewBool", func(r *rand.Rand, i int) (*jv.V, []byte, string) { return jv.NewBool(r.Intn(2) == 0), nil, "" }},
	{"NewNull", func(r *rand.Rand, i int) (*jv.V, []byte, string) { return jv.NewNull(), nil, "" }},
	{"New", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return jv.New([]any{i, strconv.Itoa(i), float64(i) / 3}), nil, ""
	}},
	{"NewObject", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return jv.NewObject(jv.M{"k" + strconv.Itoa(i%50): i, "s": "v" + strconv.Itoa(i)}), nil, ""
	}},
	{"Import struct", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v, _ := jv.Import(tStruct{Z: i, A: "a" + strconv.Itoa(i), N: &i})
		return v, nil, ""
	}},
	{"Import RawMessage", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v, _ := jv.Import(map[string]any{"r": json.RawMessage(`{"n":` + strconv.Itoa(i) + `}`), "n": json.Number(strconv.Itoa(i))})
		return v, nil, ""
	}},
	{"Set and Append", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v := jv.NewObject()
		v.MustSetInt(i).At("a", "b")
		v.MustAppendString("s" + strconv.Itoa(i)).InTheEnd("l")
		v.MustSetFloat64(float64(i) / 7).At("f")
		v.MustSetBytes([]byte(strconv.Itoa(i))).At("y")
		return v, nil, ""
	}},
	{"UnmarshalString of an object", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v, _ := jv.UnmarshalString(`{"id":` + strconv.Itoa(i) + `,"name":"n` + strconv.Itoa(i) + `","esc":"\u00e9\n` + strconv.Itoa(i) + `"}`)
		return v, nil, ""
	}},
	{"Unmarshal of numbers", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v, _ := jv.Unmarshal([]byte(`[` + strconv.Itoa(i) + `,-1.5e` + strconv.Itoa(i%90) + `,0.` + strconv.Itoa(i) + `]`))
		return v, nil, ""
	}},
	{"Unmarshal of a string", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v, _ := jv.Unmarshal([]byte(`"plain ` + strconv.Itoa(i) + `"`))
		return v, nil, ""
	}},
	{"Unmarshal of an escaped string", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v, _ := jv.Unmarshal([]byte(`"\"\ud83d\ude00` + strconv.Itoa(i) + `\t"`))
		return v, nil, ""
	}},
	{"UnmarshalNoCopy", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v, _ := jv.UnmarshalNoCopy([]byte(`{"k":[` + strconv.Itoa(i) + `,"t` + strconv.Itoa(i) + `"]}`))
		return v, nil, ""
	}},
	{"UnmarshalJSON", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v := &jv.V{}
		_ = v.UnmarshalJSON([]byte(`{"k":{"x":` + strconv.Itoa(i) + `}}`))
		return v, nil, ""
	}},
	{"failing Unmarshal", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		_, err := jv.Unmarshal([]byte(`{"k":[` + strconv.Itoa(i) + `,"t` + strconv.Itoa(i) + `"}`))
		return nil, nil, err.Error()
	}},
	{"Marshal", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return nil, jv.New([]any{i, "x"}).MustMarshal(), ""
	}},
	{"Marshal with options", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v := jv.NewObject(jv.M{"b": i, "a": "é/" + strconv.Itoa(i), "n": nil})
		return nil, v.MustMarshal(jv.OptDefaultStringSequence(), jv.OptUTF8(), jv.OptIndent("", " "), jv.OptOmitNull(true)), ""
	}},
	{"MarshalString", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return nil, nil, jv.NewObject(jv.M{"a": i}).MustMarshalString(jv.OptSetSequence())
	}},
	{"String", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return nil, nil, jv.NewFloat64(float64(i) / 9).String()
	}},
	{"String of a container", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		return nil, nil, jv.New([]any{i, "x"}).String()
	}},
	{"GetString", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v := jv.MustUnmarshalString(`{"s":"str\u0061` + strconv.Itoa(i) + `"}`)
		s, _ := v.GetString("s")
		return nil, nil, s
	}},
	{"GetBytes", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v := jv.NewObject()
		v.MustSetBytes([]byte("bytes " + strconv.Itoa(i))).At("b")
		b, _ := v.GetBytes("b")
		return nil, b, ""
	}},
	{"MarshalBinary", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		b, _ := jv.New(map[string]any{"i": i}).MarshalBinary()
		return nil, b, ""
	}},
	{"Export", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		var s struct {
			A string
			R json.RawMessage
		}
		_ = jv.MustUnmarshalString(`{"A":"\u0041x` + strconv.Itoa(i) + `","R":[` + strconv.Itoa(i) + `]}`).Export(&s)
		if r.Intn(2) == 0 {
			return nil, s.R, ""
		}
		return nil, nil, s.A
	}},
	{"keys", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		k := ""
		jv.MustUnmarshalString(`{"key\u0041` + strconv.Itoa(i) + `":1}`).RangeObjects(func(x string, _ *jv.V) bool { k = x; return true })
		return nil, nil, k
	}},
	{"copy", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v, _ := jv.Import(jv.MustUnmarshalString(`{"c":[` + strconv.Itoa(i) + `,"é"]}`))
		return v, nil, ""
	}},
	{"caseless reads", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v := jv.MustUnmarshalString(`{"KeY` + strconv.Itoa(i%100) + `":"v` + strconv.Itoa(i) + `"}`)
		s, _ := v.Caseless().GetString("kEy" + strconv.Itoa(i%100))
		return v, nil, s
	}},
	{"gob", func(r *rand.Rand, i int) (*jv.V, []byte, string) {
		v := &jv.V{}
		_ = v.UnmarshalBinary([]byte(`["` + strings.Repeat("z", i%40) + `",` + strconv.Itoa(i) + `]`))
		return v, nil, ""
	}},
}

func imageOf(v *jv.V) string {
	t, _ := snap(v)
	if t == nil {
		return "nothing"
	}
	return t.canonSeq() + " " + string(append([]byte(nil), v.MustMarshal(jv.OptSetSequence())...))
}

// p17Age: values made in every way, and bytes and strings handed out, are kept while very many others of each kind
// are made and dropped; every now and then all of the kept ones are compared with what they were
func p17Age(c *Case) {
	r := c.R
	type kept struct {
		name string
		v    *jv.V
		b    []byte
		s    string
		want string
	}
	var ks []kept
	keep := func(name string, x three) {
		v, b, s := x.v, x.b, x.s
		if v != nil {
			ks = append(ks, kept{name: name, v: v, want: imageOf(v)})
		}
		if b != nil {
			ks = append(ks, kept{name: name, b: b, want: string(b)})
		}
		if s != "" {
			ks = append(ks, kept{name: name, s: s, want: strings.Clone(s)})
		}
	}
	check := func(when string) {
		for _, k := range ks {
			got := k.s
			if k.v != nil {
				got = imageOf(k.v)
			} else if k.b != nil {
				got = string(k.b)
			}
			if got != k.want {
				c.Fail("%s: a result of %s is now %q, was %q", when, k.name, trunc(got, 500), trunc(k.want, 500))
			}
		}
		c.Eval(len(ks))
	}
	n := 0
	for round := 0; round < 3; round++ {
		for _, m := range makers {
			for k := 0; k < 2+r.Intn(3); k++ {
				n++
				keep(m.name, ret3(m.f(r, n)))
			}
		}
		// one kind in great number: a piece of memory that is handed out in parts, or a table, comes to its end
		m := makers[(c.Index*3+round)%len(makers)]
		count := 3000 + r.Intn(30000)
		if r.Intn(12) == 0 {
			count *= 6
		}
		c.Note("%d values kept, %d of %s", len(ks), count, m.name)
		at := n + r.Intn(count)
		for k := 0; k < count; k++ {
			n++
			if n == at || k%3001 == 0 {
				keep(m.name, ret3(m.f(r, n)))
				continue
			}
			m.f(r, n)
		}
		check(fmt.Sprintf("after %d more of %s", count, m.name))
		c.HitN("churned_values", count)
		if r.Intn(3) == 0 {
			runtime.GC()
			check("after a garbage collection")
		}
		// and a mixture
		for k := 0; k < 3000; k++ {
			n++
			makers[r.Intn(len(makers))].f(r, n)
		}
		check("after a mixture")
		c.Distinct("aged", c.Index, round)
	}
}

type three struct {
	v *jv.V
	b []byte
	s string
}

func ret3(v *jv.V, b []byte, s string) three { return three{v, b, s} }
