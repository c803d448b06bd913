package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P24",
		Rule: "one Go value per case, boundary and random, put through every constructor that takes it: New<Type>, New of it, of a pointer to it and of a named type, NewObject(M), Set, At first, Append, Insert in their typed, any and Must forms; " +
			"type, getters and JSON text of every result against strconv, encoding/json and base64; every 8- and 16-bit integer; formats and precisions; unsupported values of every kind, alone and nested; non-trivial: distinct (type, value)",
		Need: []string{"ints", "uints", "floats", "float32s", "strings", "bad_strings", "bytes", "bools", "nulls", "containers", "negative", "above_int64", "small_ints", "formats", "nonfinite", "unsupported", "nested_unsupported", "maps", "large"},
		Suites: []Suite{
			{Name: "values", Quick: 180000, Thorough: 4000000, Run: p24Values},
			{Name: "large", Quick: 240, Thorough: 4000, Run: p24Large},
			{Name: "small", Quick: 1 << 16, Thorough: 1 << 16, Run: p24Small},
			{Name: "formats", Quick: 400000, Thorough: 6000000, Run: p24Formats},
			{Name: "unsupported", Quick: 80000, Thorough: 600000, Run: p24Unsupported},
			{Name: "maps", Quick: 80000, Thorough: 1000000, Run: p24Maps},
		},
	})
}

type made struct {
	how string
	v   *jv.V
}

type (
	nInt   int
	nI8    int8
	nI16   int16
	nI32   int32
	nI64   int64
	nUint  uint
	nU8    uint8
	nU16   uint16
	nU32   uint32
	nU64   uint64
	nF32   float32
	nF64   float64
	nStr   string
	nBool  bool
	nBytes []byte
)

var namedOf = map[reflect.Type]reflect.Type{
	reflect.TypeOf(int(0)): reflect.TypeOf(nInt(0)), reflect.TypeOf(int8(0)): reflect.TypeOf(nI8(0)), reflect.TypeOf(int16(0)): reflect.TypeOf(nI16(0)),
	reflect.TypeOf(int32(0)): reflect.TypeOf(nI32(0)), reflect.TypeOf(int64(0)): reflect.TypeOf(nI64(0)), reflect.TypeOf(uint(0)): reflect.TypeOf(nUint(0)),
	reflect.TypeOf(uint8(0)): reflect.TypeOf(nU8(0)), reflect.TypeOf(uint16(0)): reflect.TypeOf(nU16(0)), reflect.TypeOf(uint32(0)): reflect.TypeOf(nU32(0)),
	reflect.TypeOf(uint64(0)): reflect.TypeOf(nU64(0)), reflect.TypeOf(float32(0)): reflect.TypeOf(nF32(0)), reflect.TypeOf(float64(0)): reflect.TypeOf(nF64(0)),
	reflect.TypeOf(""): reflect.TypeOf(nStr("")), reflect.TypeOf(true): reflect.TypeOf(nBool(true)), reflect.TypeOf([]byte(nil)): reflect.TypeOf(nBytes(nil)),
}

// p24Any puts x through everything that takes any
func p24Any(c *Case, x any) []made {
	r := c.R
	out := []made{{fmt.Sprintf("New(%T)", x), jv.New(x)}}
	v, err := jv.Import(x)
	if err != nil {
		c.Fail("Import(%T %v): %v", x, x, err)
	}
	out = append(out, made{"Import", v})
	if rv := reflect.ValueOf(x); x != nil {
		if namedOf[rv.Type()] != nil {
			y := named(r, x)
			out = append(out, made{fmt.Sprintf("New(%T)", y), jv.New(y)})
			if r.Intn(4) == 0 {
				x = y
			}
		}
		if r.Intn(3) == 0 {
			p := reflect.New(rv.Type())
			p.Elem().Set(rv)
			out = append(out, made{"New(pointer)", jv.New(p.Interface())})
			pp := reflect.New(p.Type())
			pp.Elem().Set(p)
			out = append(out, made{"New(pointer to pointer)", jv.New(pp.Interface())})
		}
	}
	return append(out, p24Child(c, anyChild(x, nil, "any"))...)
}

// p24Child puts a child into containers with every call it has
func p24Child(c *Case, k *child) []made {
	var out []made
	add := func(how string, ret *jv.V, err error, in *jv.V, path ...any) {
		if err != nil {
			c.Fail("%s %s: %v", k.desc, how, err)
		}
		got, err := in.Get(path[0], path[1:]...)
		if err != nil {
			c.Fail("%s %s: then Get%v: %v", k.desc, how, path, err)
		}
		if ret != nil && ret != got {
			c.Fail("%s %s returned another node than the one it stored", k.desc, how)
		}
		if in.IsArray() && in.Len() != path[0].(int)+1 && how != "Insert.Before" && how != "Append.InTheBeginning" {
			c.Fail("%s %s: the array has now %d elements", k.desc, how, in.Len())
		}
		out = append(out, made{k.desc + " " + how, got})
	}
	key := "k" + genString(c.R)
	o := jv.NewObject()
	if c.R.Intn(2) == 0 {
		o.MustSetString("before").At(key)
	}
	ret, err := k.set(o).At(key)
	add("Set.At(key)", ret, err, o, key)
	k.mset(o).At("m", "deep")
	add("MustSet.At(path)", nil, nil, o, "m", "deep")
	k.atSet(o.At("at"))
	add("At.Set", nil, nil, o, "at")
	a := jv.NewArray()
	ret, err = k.app(a).InTheEnd()
	add("Append.InTheEnd", ret, err, a, 0)
	k.mapp(a).InTheEnd()
	add("MustAppend.InTheEnd", nil, nil, a, 1)
	ret, err = k.set(a).At(2)
	add("Set.At(index)", ret, err, a, 2)
	ret, err = k.app(a).InTheBeginning()
	add("Append.InTheBeginning", ret, err, a, 0)
	k.mapp(a).InTheBeginning()
	add("Append.InTheBeginning", nil, nil, a, 0)
	if k.ins != nil {
		ret, err = k.ins(a).After(-1)
		add("Insert.After", ret, err, a, 5)
		ret, err = k.ins(a).Before(1)
		add("Insert.Before", ret, err, a, 1)
		k.mins(a).After(6)
		add("MustInsert.After", nil, nil, a, 7)
		k.mins(a).Before(0)
		add("Insert.Before", nil, nil, a, 0)
	}
	return out
}

func p24Int64(r *rand.Rand) int64 {
	if r.Intn(3) == 0 {
		e := int64(1) << uint(r.Intn(63))
		return (e + int64(r.Intn(5)) - 2) * int64(1-2*r.Intn(2))
	}
	return genInt64(r)
}

func p24Text(c *Case, m made, want string) {
	b, err := m.v.Marshal()
	if err != nil {
		c.Fail("%s: Marshal: %v", m.how, err)
	}
	if string(b) != want {
		c.Fail("%s: JSON text %s, want %s", m.how, trunc(string(b), 300), trunc(want, 300))
	}
}

func p24IsNum(c *Case, m made) {
	if m.v == nil || m.v.ValueType() != jv.Number || !m.v.IsNumber() || m.v.IsString() || m.v.IsNull() || m.v.IsBoolean() || m.v.IsObject() || m.v.IsArray() {
		c.Fail("%s: not a number: type %v", m.how, m.v.ValueType())
	}
}

// p24CheckInt checks a number made from an integer: neg tells the sign, u its two's complement
func p24CheckInt(c *Case, m made, neg bool, u uint64) {
	v := m.v
	p24IsNum(c, m)
	i := int64(u)
	text, f := strconv.FormatUint(u, 10), float64(u)
	if neg {
		text, f = strconv.FormatInt(i, 10), float64(i)
	}
	p24Text(c, m, text)
	if !v.IsInteger() || v.IsFloat() {
		c.Fail("%s: %s is not an integer", m.how, text)
	}
	if v.String() != text {
		c.Fail("%s: String() of %s gives %q", m.how, text, v.String())
	}
	if v.IsNegative() != neg || u != 0 && v.IsPositive() == neg {
		c.Fail("%s: %s: IsNegative %v, IsPositive %v", m.how, text, v.IsNegative(), v.IsPositive())
	}
	if big := !neg && u > math.MaxInt64; v.GreaterThanInt64Max() != big {
		c.Fail("%s: %s: GreaterThanInt64Max %v", m.how, text, v.GreaterThanInt64Max())
	}
	if v.Float64() != f || v.Float32() != float32(f) {
		c.Fail("%s: %s: Float64 %v, Float32 %v", m.how, text, v.Float64(), v.Float32())
	}
	if neg || u <= math.MaxInt64 {
		if v.Int64() != i || v.Int() != int(i) {
			c.Fail("%s: %s: Int64 %d, Int %d", m.how, text, v.Int64(), v.Int())
		}
		if int64(int32(i)) == i && v.Int32() != int32(i) {
			c.Fail("%s: %s: Int32 %d", m.how, text, v.Int32())
		}
	}
	if !neg {
		if v.Uint64() != u || v.Uint() != uint(u) {
			c.Fail("%s: %s: Uint64 %d, Uint %d", m.how, text, v.Uint64(), v.Uint())
		}
		if uint64(uint32(u)) == u && v.Uint32() != uint32(u) {
			c.Fail("%s: %s: Uint32 %d", m.how, text, v.Uint32())
		}
	}
}

func p24Floats(r *rand.Rand) float64 {
	switch r.Intn(5) {
	case 0:
		return genFiniteFloat(r)
	case 1: // around the places where the text changes form
		x := []float64{1e-6, 1e21, 1e-7, 1e20, 1e-5, 1e22, 1e-9, 1e-10, 1e-99, 1e-100, 1, 1 << 53, math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxInt64}[r.Intn(18)]
		for n := r.Intn(4); n > 0; n-- {
			x = math.Nextafter(x, []float64{0, math.MaxFloat64}[r.Intn(2)])
		}
		return x * float64(1-2*r.Intn(2))
	case 2:
		return float64(p24Int64(r))
	case 3:
		d := strconv.FormatInt(p24Int64(r), 10) + "e" + strconv.Itoa(r.Intn(60)-40)
		f, _ := strconv.ParseFloat(d, 64)
		return f
	}
	return []float64{0, math.Copysign(0, -1)}[r.Intn(2)]
}

func p24CheckFloat(c *Case, m made, f float64, f32 bool) {
	v := m.v
	p24IsNum(c, m)
	var want []byte
	if f32 {
		want, _ = json.Marshal(float32(f))
	} else {
		want, _ = json.Marshal(f)
	}
	p24Text(c, m, string(want))
	g := v.Float64()
	if math.Float64bits(g) != math.Float64bits(f) {
		c.Fail("%s: Float64 %v, want %v", m.how, g, f)
	}
	if f32 && v.Float32() != float32(f) || !f32 && v.Float32() != float32(f) {
		c.Fail("%s: Float32 %v, want %v", m.how, v.Float32(), float32(f))
	}
	if f < 0 != v.IsNegative() || f > 0 && !v.IsPositive() || f < 0 && v.IsPositive() {
		c.Fail("%s: %v: IsNegative %v, IsPositive %v", m.how, f, v.IsNegative(), v.IsPositive())
	}
	if f == math.Trunc(f) && math.Abs(f) <= 1<<53 {
		if v.Int64() != int64(f) || v.Int() != int(f) {
			c.Fail("%s: %v: Int64 %d, Int %d", m.how, f, v.Int64(), v.Int())
		}
		if f >= 0 && (v.Uint64() != uint64(f) || v.Uint() != uint(f)) {
			c.Fail("%s: %v: Uint64 %d, Uint %d", m.how, f, v.Uint64(), v.Uint())
		}
		if math.Abs(f) <= math.MaxInt32 && v.Int32() != int32(f) {
			c.Fail("%s: %v: Int32 %d", m.how, f, v.Int32())
		}
		if f >= 0 && f <= math.MaxUint32 && v.Uint32() != uint32(f) {
			c.Fail("%s: %v: Uint32 %d", m.how, f, v.Uint32())
		}
	}
}

func p24CheckString(c *Case, m made, s string) {
	v := m.v
	if v == nil || !v.IsString() || v.ValueType() != jv.String || v.IsNumber() || v.IsNull() {
		c.Fail("%s: not a string: type %v", m.how, v.ValueType())
	}
	if v.String() != s {
		c.Fail("%s: String gives %q, want %q", m.how, trunc(v.String(), 300), trunc(s, 300))
	}
	b, err := v.Marshal()
	if err != nil {
		c.Fail("%s: Marshal: %v", m.how, err)
	}
	var got string
	if err := json.Unmarshal(b, &got); err != nil {
		c.Fail("%s: JSON text %q: %v", m.how, trunc(string(b), 300), err)
	}
	if utf8.ValidString(s) && got != s {
		c.Fail("%s: JSON text %q is %q, want %q", m.how, trunc(string(b), 300), trunc(got, 300), trunc(s, 300))
	}
}

func p24Values(c *Case) {
	r := c.R
	var list []made
	check := func(f func(m made)) {
		for _, m := range list {
			f(m)
			c.Eval(1)
		}
	}
	switch c.Index % 9 {
	case 0, 1: // signed
		i := p24Int64(r)
		c.Note("signed %d", i)
		c.Distinct("int", i)
		c.Hit("ints")
		if i < 0 {
			c.Hit("negative")
		}
		list = append(list, made{"NewInt64", jv.NewInt64(i)}, made{"NewInt", jv.NewInt(int(i))})
		list = append(list, p24Child(c, kInt64(i))...)
		list = append(list, p24Child(c, kInt(int(i)))...)
		list = append(list, p24Any(c, i)...)
		list = append(list, p24Any(c, int(i))...)
		check(func(m made) { p24CheckInt(c, m, i < 0, uint64(i)) })
		list = nil
		j := int32(i >> uint(r.Intn(33)))
		c.NoteMore(", 32-bit %d", j)
		list = append(list, made{"NewInt32", jv.NewInt32(j)})
		list = append(list, p24Child(c, kInt32(j))...)
		list = append(list, p24Any(c, j)...)
		check(func(m made) { p24CheckInt(c, m, j < 0, uint64(j)) })
	case 2, 3: // unsigned
		u := uint64(p24Int64(r))
		c.Note("unsigned %d", u)
		c.Distinct("uint", u)
		c.Hit("uints")
		if u > math.MaxInt64 {
			c.Hit("above_int64")
		}
		list = append(list, made{"NewUint64", jv.NewUint64(u)}, made{"NewUint", jv.NewUint(uint(u))})
		list = append(list, p24Child(c, kUint64(u))...)
		list = append(list, p24Child(c, kUint(uint(u)))...)
		list = append(list, p24Any(c, u)...)
		list = append(list, p24Any(c, uint(u))...)
		check(func(m made) { p24CheckInt(c, m, false, u) })
		list = nil
		j := uint32(u >> uint(r.Intn(33)))
		c.NoteMore(", 32-bit %d", j)
		list = append(list, made{"NewUint32", jv.NewUint32(j)})
		list = append(list, p24Child(c, kUint32(j))...)
		list = append(list, p24Any(c, j)...)
		check(func(m made) { p24CheckInt(c, m, false, uint64(j)) })
	case 4:
		f := p24Floats(r)
		c.Note("float64 %v", f)
		c.Distinct("float", f)
		c.Hit("floats")
		list = append(list, made{"NewFloat64", jv.NewFloat64(f)})
		list = append(list, p24Child(c, kFloat64(f))...)
		list = append(list, p24Any(c, f)...)
		check(func(m made) { p24CheckFloat(c, m, f, false) })
	case 5:
		f := float32(p24Floats(r))
		if math.IsInf(float64(f), 0) {
			f = math.Float32frombits(r.Uint32())
		}
		if math.IsInf(float64(f), 0) || f != f {
			f = math.MaxFloat32
		}
		c.Note("float32 %v", f)
		c.Distinct("float32", f)
		c.Hit("float32s")
		list = append(list, made{"NewFloat32", jv.NewFloat32(f)})
		list = append(list, p24Child(c, kFloat32(f))...)
		list = append(list, p24Any(c, f)...)
		check(func(m made) { p24CheckFloat(c, m, float64(f), true) })
	case 6:
		s := genString(r)
		c.Hit("strings")
		if r.Intn(4) == 0 {
			s = genBadString(r)
			c.Hit("bad_strings")
		}
		c.Note("string %q", s)
		c.Distinct("string", s)
		list = append(list, made{"NewString", jv.NewString(s)})
		list = append(list, p24Child(c, kString(s))...)
		if utf8.ValidString(s) { // of other strings Import need not keep the bytes
			list = append(list, p24Any(c, s)...)
		}
		check(func(m made) { p24CheckString(c, m, s) })
	case 7:
		b := []byte(genBadString(r))
		if r.Intn(3) == 0 {
			b = make([]byte, r.Intn(8))
			r.Read(b)
		}
		c.Note("bytes %x", b)
		c.Distinct("bytes", b)
		c.Hit("bytes")
		keep := append([]byte{}, b...)
		list = append(list, made{"NewBytes", jv.NewBytes(b)})
		list = append(list, p24Child(c, kBytes(b))...)
		list = append(list, p24Any(c, b)...)
		for i := range b {
			b[i] ^= 0x55 // the value does not follow its argument
		}
		s := base64.StdEncoding.EncodeToString(keep)
		check(func(m made) {
			p24CheckString(c, m, s)
			if !bytes.Equal(m.v.Bytes(), keep) {
				c.Fail("%s: Bytes gives %x, want %x", m.how, m.v.Bytes(), keep)
			}
		})
	default:
		b := r.Intn(2) == 0
		c.Note("bool %v, null, containers", b)
		c.Hit("bools")
		c.Hit("nulls")
		c.Hit("containers")
		list = append(list, made{"NewBool", jv.NewBool(b)})
		list = append(list, p24Child(c, kBool_(b))...)
		list = append(list, p24Any(c, b)...)
		check(func(m made) {
			if !m.v.IsBoolean() || m.v.ValueType() != jv.Boolean || m.v.Bool() != b || m.v.IsNull() || m.v.IsString() {
				c.Fail("%s: type %v, Bool %v", m.how, m.v.ValueType(), m.v.Bool())
			}
			p24Text(c, m, strconv.FormatBool(b))
		})
		list = append([]made{{"NewNull", jv.NewNull()}}, p24Child(c, kNull_())...)
		list = append(list, p24Any(c, nil)...)
		list = append(list, made{"New(nil pointer)", jv.New((*int)(nil))}, made{"New(nil map)", jv.New(map[string]any(nil))})
		check(func(m made) {
			if !m.v.IsNull() || m.v.ValueType() != jv.Null || m.v.IsBoolean() || m.v.IsString() {
				c.Fail("%s: type %v", m.how, m.v.ValueType())
			}
			p24Text(c, m, "null")
		})
		for _, obj := range []bool{true, false} {
			text := "[]"
			if obj {
				text = "{}"
				list = append([]made{{"NewObject()", jv.NewObject()}, {"NewObject(nil)", jv.NewObject(nil)}, {"NewObject(M{})", jv.NewObject(jv.M{})}}, p24Child(c, kObject())...)
				list = append(list, p24Any(c, map[string]any{})...)
				list = append(list, p24Any(c, struct{}{})...)
			} else {
				list = append([]made{{"NewArray", jv.NewArray()}}, p24Child(c, kArray())...)
				list = append(list, p24Any(c, []any{})...)
				list = append(list, p24Any(c, [0]int{})...)
			}
			seen := map[*jv.V]bool{}
			check(func(m made) {
				if m.v.IsObject() != obj || m.v.IsArray() == obj || m.v.Len() != 0 {
					c.Fail("%s: type %v, %d members", m.how, m.v.ValueType(), m.v.Len())
				}
				p24Text(c, m, text)
				seen[m.v] = true
			})
			for _, m := range list { // and it can be filled
				if !seen[m.v] {
					continue
				}
				seen[m.v] = false
				if obj {
					m.v.MustSetInt(1).At("k")
					p24Text(c, m, `{"k":1}`)
				} else {
					m.v.MustAppendInt(1).InTheEnd()
					p24Text(c, m, `[1]`)
				}
			}
		}
	}
	if c.Index < 9 {
		c.Sample("%s: %d results", c.note, len(list))
	}
}

// p24Large: long strings and bytes, through the same constructors
func p24Large(c *Case) {
	r := c.R
	n := 1<<uint(9+r.Intn(11)) + r.Intn(9) - 4
	if r.Intn(2) == 0 {
		n = r.Intn(200000)
	}
	c.Hit("large")
	c.Distinct("large", c.Index, n)
	if c.Index%2 == 0 {
		b := make([]byte, n)
		r.Read(b)
		c.Note("%d bytes", n)
		list := []made{{"NewBytes", jv.NewBytes(b)}}
		list = append(list, p24Child(c, kBytes(b))...)
		list = append(list, p24Any(c, b)...)
		s := base64.StdEncoding.EncodeToString(b)
		for _, m := range list {
			p24CheckString(c, m, s)
			if !bytes.Equal(m.v.Bytes(), b) {
				c.Fail("%s: Bytes is not what was given", m.how)
			}
			c.Eval(1)
		}
		return
	}
	unit := genString(r) + string(genRune(r))
	s := strings.Repeat(unit, n/len(unit)+1)
	c.Note("%d bytes of string, repeating %q", len(s), unit)
	list := []made{{"NewString", jv.NewString(s)}}
	list = append(list, p24Child(c, kString(s))...)
	list = append(list, p24Any(c, s)...)
	for _, m := range list {
		p24CheckString(c, m, s)
		c.Eval(1)
	}
}

// p24Small: every 16-bit integer, signed and unsigned, and with them every 8-bit one
func p24Small(c *Case) {
	u := uint16(c.Index)
	i := int16(u)
	c.Note("16-bit %d and %d", u, i)
	c.Hit("small_ints")
	c.Distinct(u)
	m := jv.NewObject(jv.M{"u16": u, "i16": i, "n": nI16(i), "u8": uint8(u), "i8": int8(u)})
	c.Eval(8)
	get := func(k string) *jv.V { return m.MustGet(k) }
	p24CheckInt(c, made{"New(uint16)", jv.New(u)}, false, uint64(u))
	p24CheckInt(c, made{"New(int16)", jv.New(i)}, i < 0, uint64(i))
	p24CheckInt(c, made{"NewObject(M) uint16", get("u16")}, false, uint64(u))
	p24CheckInt(c, made{"NewObject(M) int16", get("i16")}, i < 0, uint64(i))
	p24CheckInt(c, made{"NewObject(M) named int16", get("n")}, i < 0, uint64(i))
	p24CheckInt(c, made{"NewObject(M) uint8", get("u8")}, false, uint64(uint8(u)))
	p24CheckInt(c, made{"NewObject(M) int8", get("i8")}, int8(u) < 0, uint64(int8(u)))
	p24CheckInt(c, made{"New(int8)", jv.New(int8(u))}, int8(u) < 0, uint64(int8(u)))
	p24CheckInt(c, made{"New(uint8)", jv.New(uint8(u))}, false, uint64(uint8(u)))
	p24CheckInt(c, made{"New(named uint8)", jv.New(nU8(u))}, false, uint64(uint8(u)))
	p24CheckInt(c, made{"NewInt", jv.NewInt(int(i))}, i < 0, uint64(i))
	p24CheckInt(c, made{"NewUint32", jv.NewUint32(uint32(u))}, false, uint64(u))
}

func p24Formats(c *Case) {
	r := c.R
	f := p24Floats(r)
	bad := r.Intn(20) == 0
	if bad {
		f = []float64{genAnyNaN(r), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
	}
	format := []byte("feEgG")[r.Intn(5)]
	asked := format
	if r.Intn(6) == 0 {
		asked, format = []byte("bxXdFv%\x00\xff")[r.Intn(9)], 'g'
	}
	prec := -1
	if r.Intn(3) != 0 {
		prec = r.Intn(20)
	}
	if r.Intn(40) == 0 {
		prec = 20 + r.Intn(100)
	}
	f32 := r.Intn(3) == 0
	var m made
	wants := []string{strconv.FormatFloat(f, format, prec, 64)}
	if f32 {
		x := float32(f)
		if math.IsInf(float64(x), 0) && !bad {
			x = math.MaxFloat32
		}
		f = float64(x)
		c.Note("NewFloat32f(%v, %q, %d)", x, asked, prec)
		m = made{"NewFloat32f", jv.NewFloat32f(x, asked, prec)}
		wants = []string{strconv.FormatFloat(f, format, prec, 64), strconv.FormatFloat(f, format, prec, 32)}
	} else {
		c.Note("NewFloat64f(%v, %q, %d)", f, asked, prec)
		m = made{"NewFloat64f", jv.NewFloat64f(f, asked, prec)}
	}
	c.Eval(1)
	c.Distinct(f, asked, prec, f32)
	if c.Index < 5 {
		c.Sample("%s", c.note)
	}
	p24IsNum(c, m)
	if bad {
		c.Hit("nonfinite")
		for _, m := range []made{m, {"NewFloat64", jv.NewFloat64(f)}, {"New", jv.New(f)}, {"NewFloat32", jv.NewFloat32(float32(f))}} {
			p24IsNum(c, m)
			if g := m.v.Float64(); g != f && (g == g || f == f) {
				c.Fail("%s: Float64 %v, want %v", m.how, g, f)
			}
			if b, err := m.v.Marshal(); err == nil {
				c.Fail("%s: %v marshals to %q", m.how, f, b)
			}
			want := "null"
			if b, err := m.v.Marshal(jv.OptFloatNaNToNull(), jv.OptFloatInfToNull()); err != nil || string(b) != want {
				c.Fail("%s: %v with NaN and Inf to null: %q, %v", m.how, f, b, err)
			}
		}
		return
	}
	c.Hit("formats")
	b, err := m.v.Marshal()
	if err != nil {
		c.Fail("Marshal: %v", err)
	}
	ok := false
	for _, w := range wants {
		ok = ok || string(b) == w
	}
	if !ok {
		c.Fail("JSON text %s, want %s", trunc(string(b), 300), trunc(wants[0], 300))
	}
	if prec < 0 && math.Float64bits(m.v.Float64()) != math.Float64bits(f) {
		c.Fail("Float64 %v, want %v", m.v.Float64(), f)
	}
	// in an object it has the same text
	o := jv.NewObject()
	o.MustSet(m.v).At("k")
	if b2, err := o.Marshal(); err != nil || string(b2) != `{"k":`+string(b)+`}` {
		c.Fail("inside an object: %q, %v", trunc(string(b2), 300), err)
	}
}

type p24Struct struct{ A any }

func p24Unsupported(c *Case) {
	r := c.R
	ch := make(chan int)
	bads := []any{ch, func() {}, complex(1, 2), complex64(3), &ch, map[complex128]int{1: 1}, map[float64]string{1.5: "x"}, map[bool]int{true: 1}, map[[1]int]int{{1}: 1},
		map[*int]int{nil: 1}, map[struct{}]int{{}: 1}, (func())(nil), []complex128{1}, [1]chan int{ch}, map[string]func(){"k": nil}, struct{ C chan int }{ch}}
	x := bads[r.Intn(len(bads))]
	d := fmt.Sprintf("%T", x)
	for n := r.Intn(4); n > 0; n-- {
		c.Hit("nested_unsupported")
		switch r.Intn(6) {
		case 0:
			x = []any{1, x, nil}
		case 1:
			x = map[string]any{"a": 1, "k": x, "z": "s"}
		case 2:
			x = p24Struct{x}
		case 3:
			x = &p24Struct{x}
		case 4:
			x = [2]any{"s", x}
		default:
			x = map[int]any{3: x}
		}
		d = fmt.Sprintf("%T holding %s", x, d)
	}
	c.Note("%s", d)
	c.Hit("unsupported")
	c.Eval(1)
	c.Distinct(d)
	v := jv.New(x)
	if v == nil {
		c.Fail("New gives nil")
	}
	if v.ValueType() != jv.NotExist || v.IsNull() || v.IsObject() || v.IsArray() || v.IsString() || v.IsNumber() {
		c.Fail("New gives a value of type %v", v.ValueType())
	}
	if v, err := jv.Import(x); err == nil || v != nil && v.ValueType() != jv.NotExist {
		c.Fail("Import gives %v, %v", v, err)
	}
	o, a := jv.NewObject(), jv.NewArray()
	ret, err := o.Set(x).At("k")
	if err == nil || o.Len() != 0 || ret == nil || ret.ValueType() != jv.NotExist {
		c.Fail("Set: %v, %v; %s", ret, err, o)
	}
	o.MustSet(x).At("k")
	o.At("k").Set(x)
	ret, err = a.Append(x).InTheEnd()
	if err == nil || a.Len() != 0 || ret == nil || ret.ValueType() != jv.NotExist {
		c.Fail("Append: %v, %v; %s", ret, err, a)
	}
	a.MustAppend(x).InTheBeginning()
	if o.Len() != 0 || a.Len() != 0 {
		c.Fail("a Must function stored it: %s %s", o, a)
	}
}

// p24Maps: NewObject with several members at once
func p24Maps(c *Case) {
	r := c.R
	m := jv.M{}
	checks := map[string]func(m made){}
	var d []string
	for n := r.Intn(10); n > 0; n-- {
		k := genString(r)
		i := p24Int64(r)
		switch r.Intn(16) {
		case 0:
			m[k], checks[k] = nil, func(m made) { p24Text(c, m, "null") }
		case 1:
			m[k], checks[k] = i > 0, func(m made) { p24Text(c, m, strconv.FormatBool(i > 0)) }
		case 2:
			m[k], checks[k] = nBool(i > 0), func(m made) { p24Text(c, m, strconv.FormatBool(i > 0)) }
		case 3:
			m[k], checks[k] = i, func(m made) { p24CheckInt(c, m, i < 0, uint64(i)) }
		case 4:
			m[k], checks[k] = int(i), func(m made) { p24CheckInt(c, m, i < 0, uint64(i)) }
		case 5:
			m[k], checks[k] = int32(i), func(m made) { p24CheckInt(c, m, int32(i) < 0, uint64(int32(i))) }
		case 6:
			m[k], checks[k] = uint64(i), func(m made) { p24CheckInt(c, m, false, uint64(i)) }
		case 7:
			m[k], checks[k] = uint(i), func(m made) { p24CheckInt(c, m, false, uint64(i)) }
		case 8:
			m[k], checks[k] = uint32(i), func(m made) { p24CheckInt(c, m, false, uint64(uint32(i))) }
		case 9:
			m[k], checks[k] = nI64(i), func(m made) { p24CheckInt(c, m, i < 0, uint64(i)) }
		case 10:
			f := p24Floats(r)
			m[k], checks[k] = f, func(m made) { p24CheckFloat(c, m, f, false) }
		case 11:
			f := p24Floats(r)
			m[k], checks[k] = nF64(f), func(m made) { p24CheckFloat(c, m, f, false) }
		case 12:
			s := genString(r)
			m[k], checks[k] = s, func(m made) { p24CheckString(c, m, s) }
		case 13:
			s := genBadString(r)
			m[k], checks[k] = nStr(s), func(m made) { p24CheckString(c, m, s) }
		case 14:
			m[k], checks[k] = nU64(i), func(m made) { p24CheckInt(c, m, false, uint64(i)) }
		default:
			m[k], checks[k] = int8(i), func(m made) { p24CheckInt(c, m, int8(i) < 0, uint64(int8(i))) }
		}
		d = append(d, fmt.Sprintf("%q: %T(%v)", k, m[k], m[k]))
		if r.Intn(3) == 0 {
			m[k] = named(r, m[k])
			c.Hit("types_with_methods")
		}
	}
	c.Note("NewObject(M{%q})", d)
	c.Hit("maps")
	c.Eval(1 + len(checks))
	c.Distinct(fmt.Sprint(d))
	o := jv.NewObject(m)
	if !o.IsObject() || o.Len() != len(checks) {
		c.Fail("%d members, want %d: %s", o.Len(), len(checks), keysOf(o))
	}
	for k, f := range checks {
		v, err := o.Get(k)
		if err != nil {
			c.Fail("member %q: %v", k, err)
		}
		f(made{fmt.Sprintf("member %q (%T)", k, m[k]), v})
	}
	if len(m) != len(checks) {
		c.Fail("NewObject changed its argument")
	}
}
