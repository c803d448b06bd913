package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P11",
		Rule: "random documents read through random valid, near-valid and absurd paths by every getter and every accessor, against a reference walk and reference conversions, with the document checked to be unchanged; " +
			"non-trivial: distinct (document, path)",
		Need: []string{"found", "found_scalar", "ErrNotFound", "ErrOutOfRange", "ErrParameterError", "any error", "ErrMultipleParam…", "string_to_number", "string_not_number", "bytes_ok", "bytes_bad", "index_types", "reads_after_edits"},
		Suites: []Suite{
			{Name: "reads", Quick: 128000, Thorough: 800000, Run: p11Reads},
			{Name: "sizes", Quick: 64, Thorough: 1000, Run: func(c *Case) { c.big = 70000; p11Reads(c) }},
			{Name: "mixed", Quick: 5000, Thorough: 100000, Run: p11Mixed},
			{Name: "conversions", Quick: 480000, Thorough: 3000000, Run: p11Conversions},
			{Name: "indexes", Quick: 3200, Thorough: 4000, Run: p11Indexes},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 2}, readPaths(false))},
		},
	})
}

// wantInts gives what the integer getters must return for a number text, where that is specified
type wantInts struct {
	i64   int64
	u64   uint64
	i32   int32
	u32   uint32
	okI64 bool
	okU64 bool
	okI32 bool
	okU32 bool
}

func intsOf(s string) (w wantInts) {
	if !isFloatText(s) {
		x, ok := new(big.Int).SetString(s, 10)
		if !ok {
			panic(s)
		}
		if x.IsInt64() {
			w.i64, w.okI64 = x.Int64(), true
			if w.i64 >= math.MinInt32 && w.i64 <= math.MaxInt32 {
				w.i32, w.okI32 = int32(w.i64), true
			}
		}
		if x.IsUint64() {
			w.u64, w.okU64 = x.Uint64(), true
			if w.u64 <= math.MaxUint32 {
				w.u32, w.okU32 = uint32(w.u64), true
			}
		}
		return
	}
	f, _ := strconv.ParseFloat(s, 64)
	if f > -9.2e18 && f < 9.2e18 {
		w.i64, w.okI64 = int64(f), true
		if f > -2e9 && f < 2e9 {
			w.i32, w.okI32 = int32(f), true
		}
	}
	if f >= 0 && f < 1.8e19 {
		w.u64, w.okU64 = uint64(f), true
		if f < 4e9 {
			w.u32, w.okU32 = uint32(f), true
		}
	}
	return
}

// getWant is what the getters must give for one node
type getWant struct {
	num   string // the number text the conversions are about, or ""
	nonFi bool
	skip  bool // conversion not specified
	numE  eclass
	parse bool // error must be ErrParseNumberFromString
	b     bool
	boolE eclass
}

func isBlank(c rune) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func wantOf(r *RV) (w getWant) {
	w.numE, w.boolE = eTypeNotMatch, eTypeNotMatch
	switch r.K {
	case kNum:
		w.numE = eNone
		w.num = r.N
		if r.N == "" {
			w.nonFi = true
			w.b = true
		} else {
			f, _ := strconv.ParseFloat(r.N, 64)
			w.b = f != 0
		}
	case kStr:
		t := strings.TrimFunc(r.S, isBlank)
		if t != strings.TrimSpace(r.S) {
			w.skip = true
		}
		if validNumberText(t) && numberInRange(t) {
			w.num = t
		} else {
			w.parse = true
		}
		w.b = r.S == "true"
	case kBool:
		w.b = r.B
		w.boolE = eNone
	}
	return
}

// anyOf tells whether p is one of the nodes
func anyOf(p *jv.V, ok []*jv.V) bool {
	for _, x := range ok {
		if x == p {
			return true
		}
	}
	return false
}

// checkGetters runs every getter of api on one path. The addressed node must be one of tv; tr is its content.
func checkGetters(c *Case, api jv.Caseless, tv []*jv.V, tr *RV, e eclass, first any, rest []any) {
	v, err := api.Get(first, rest...)
	c.Eval(19)
	if !errMatches(err, e) {
		c.Fail("Get returned error %v, expected %s", err, eNames[e])
	}
	m := api.MustGet(first, rest...)
	if v == nil || m == nil {
		c.Fail("Get or MustGet returned nil")
	}
	if e == eNone {
		if !anyOf(v, tv) {
			c.Fail("Get returned another node than the addressed one: %v %s, want %s", v.ValueType(), trunc(v.String(), 200), trunc(tr.canonSeq(), 200))
		}
		if !anyOf(m, tv) {
			c.Fail("MustGet returned another node than the addressed one")
		}
	} else {
		if v.ValueType() != jv.NotExist || m.ValueType() != jv.NotExist {
			c.Fail("Get failed with %v but returned a %v, MustGet a %v", err, v.ValueType(), m.ValueType())
		}
		if anyOf(v, tv) {
			c.Fail("a failed Get returned a node of the document")
		}
	}
	checkErr := func(name string, err error, want eclass, parse bool) {
		if e != eNone {
			want, parse = e, false
		}
		if parse {
			if !errors.Is(err, jv.ErrParseNumberFromString) {
				c.Fail("%s returned error %v, expected ErrParseNumberFromString", name, err)
			}
			return
		}
		if !errMatches(err, want) {
			c.Fail("%s returned error %v, expected %s", name, err, eNames[want])
		}
	}
	isK := func(k kind) eclass {
		if tr != nil && tr.K == k {
			return eNone
		}
		return eTypeNotMatch
	}
	w := getWant{numE: eTypeNotMatch, boolE: eTypeNotMatch}
	if e == eNone {
		w = wantOf(tr)
	}
	// strings and bytes
	s, err := api.GetString(first, rest...)
	checkErr("GetString", err, isK(kStr), false)
	if want := ""; e == eNone && tr.K == kStr {
		if want = tr.S; s != want {
			c.Fail("GetString gives %q, want %q", s, want)
		}
	} else if s != "" {
		c.Fail("GetString fails but gives %q", s)
	}
	b, err := api.GetBytes(first, rest...)
	bwant := []byte{}
	if e == eNone && tr.K == kStr {
		x, berr := base64.StdEncoding.DecodeString(tr.S)
		if berr == nil {
			bwant = x
			checkErr("GetBytes", err, eNone, false)
			c.Hit("bytes_ok")
		} else {
			checkErr("GetBytes", err, eAny, false)
			c.Hit("bytes_bad")
		}
	} else {
		checkErr("GetBytes", err, eTypeNotMatch, false)
	}
	if !bytes.Equal(b, bwant) {
		c.Fail("GetBytes gives %x, want %x", b, bwant)
	}
	// null, containers, booleans
	checkErr("GetNull", api.GetNull(first, rest...), isK(kNull), false)
	for i, get := range []func(any, ...any) (*jv.V, error){api.GetObject, api.GetArray} {
		want := isK([]kind{kObj, kArr}[i])
		name := []string{"GetObject", "GetArray"}[i]
		x, err := get(first, rest...)
		checkErr(name, err, want, false)
		if x == nil {
			c.Fail("%s returned nil", name)
		}
		if e == eNone && want == eNone {
			if !anyOf(x, tv) {
				c.Fail("%s returned another node", name)
			}
		} else if x.ValueType() != jv.NotExist {
			c.Fail("%s failed with %v but returned a %v", name, err, x.ValueType())
		}
	}
	bl, err := api.GetBool(first, rest...)
	checkErr("GetBool", err, w.boolE, false)
	if !w.nonFi && bl != (e == eNone && w.b) {
		c.Fail("GetBool gives %v", bl)
	}
	// numbers
	gi, e1 := api.GetInt(first, rest...)
	gi64, e2 := api.GetInt64(first, rest...)
	gi32, e3 := api.GetInt32(first, rest...)
	gu, e4 := api.GetUint(first, rest...)
	gu64, e5 := api.GetUint64(first, rest...)
	gu32, e6 := api.GetUint32(first, rest...)
	gf, e7 := api.GetFloat64(first, rest...)
	gf32, e8 := api.GetFloat32(first, rest...)
	if w.skip {
		return
	}
	for i, err := range []error{e1, e2, e3, e4, e5, e6, e7, e8} {
		checkErr([]string{"GetInt", "GetInt64", "GetInt32", "GetUint", "GetUint64", "GetUint32", "GetFloat64", "GetFloat32"}[i], err, w.numE, w.parse)
	}
	checkInts(c, "Get", w, gi, gi64, gi32, gu, gu64, gu32, gf, gf32)
	if e != eNone {
		return
	}
	if tr.K == kStr {
		if w.num != "" {
			c.Hit("string_to_number")
		} else {
			c.Hit("string_not_number")
		}
	}
	// the accessors of the node itself
	checkInts(c, "accessor ", w, v.Int(), v.Int64(), v.Int32(), v.Uint(), v.Uint64(), v.Uint32(), v.Float64(), v.Float32())
	if !w.nonFi && v.Bool() != w.b {
		c.Fail("Bool gives %v", v.Bool())
	}
	if x := v.Bytes(); x == nil || !bytes.Equal(x, bwant) {
		c.Fail("Bytes gives %x, want %x", x, bwant)
	}
	switch tr.K {
	case kStr:
		if v.String() != tr.S {
			c.Fail("String gives %q", v.String())
		}
	case kNum:
		if tr.N != "" && v.String() != tr.N {
			c.Fail("String gives %q for the number %s", v.String(), tr.N)
		}
	case kBool:
		if v.String() != strconv.FormatBool(tr.B) {
			c.Fail("String gives %q for a boolean", v.String())
		}
	case kNull:
		if v.String() != "null" {
			c.Fail("String gives %q for null", v.String())
		}
	}
	for i, is := range []bool{v.IsNull(), v.IsBoolean(), v.IsNumber(), v.IsString(), v.IsArray(), v.IsObject()} {
		k := []kind{kNull, kBool, kNum, kStr, kArr, kObj}[i]
		if is != (tr.K == k) {
			c.Fail("type predicate for %s is %v on a %s", kindNames[k], is, kindNames[tr.K])
		}
	}
	if v.Len() != len(tr.A)+len(tr.O) {
		c.Fail("Len gives %d", v.Len())
	}
	if tr.K != kNum && (v.IsFloat() || v.IsInteger() || v.IsNegative() || v.IsPositive() || v.GreaterThanInt64Max()) {
		c.Fail("a number predicate holds for a %s", kindNames[tr.K])
	}
}

func checkInts(c *Case, what string, w getWant, i int, i64 int64, i32 int32, u uint, u64 uint64, u32 uint32, f float64, f32 float32) {
	if w.nonFi {
		return
	}
	x := wantInts{okI64: true, okI32: true, okU64: true, okU32: true}
	wf := 0.0
	if w.num != "" {
		x = intsOf(w.num)
		wf, _ = strconv.ParseFloat(w.num, 64)
	}
	if c.f32ok && math.Abs(wf) > 1<<53 {
		x = wantInts{} // the value may have been made from a float, whose text is rounded
	}
	if x.okI64 && (i64 != x.i64 || i != int(x.i64)) {
		c.Fail("%sInt64 %d, %sInt %d, want %d", what, i64, what, i, x.i64)
	}
	if x.okI32 && i32 != x.i32 {
		c.Fail("%sInt32 %d, want %d", what, i32, x.i32)
	}
	if x.okU64 && (u64 != x.u64 || u != uint(x.u64)) {
		c.Fail("%sUint64 %d, %sUint %d, want %d", what, u64, what, u, x.u64)
	}
	if x.okU32 && u32 != x.u32 {
		c.Fail("%sUint32 %d, want %d", what, u32, x.u32)
	}
	if f != wf && !(c.f32ok && f == float64(float32(wf))) || f32 != float32(wf) {
		c.Fail("%sFloat64 %v, %sFloat32 %v, want %v", what, f, what, f32, wf)
	}
}

// convString makes strings that are, or nearly are, numbers, booleans or base64
func convString(r *rand.Rand) string {
	s := ""
	switch r.Intn(12) {
	case 0, 1, 2:
		s = genNumText(r)
	case 3:
		s = hugeNumbers[r.Intn(len(hugeNumbers))]
	case 4:
		s = []string{"true", "false", "True", "TRUE", "true ", "1", "0", "null", "t", ""}[r.Intn(10)]
	case 5, 6:
		b := make([]byte, r.Intn(20))
		r.Read(b)
		s = []*base64.Encoding{base64.StdEncoding, base64.StdEncoding, base64.URLEncoding, base64.RawStdEncoding}[r.Intn(4)].EncodeToString(b)
	case 7:
		s = string(mutate(r, []byte(genNumText(r))))
	case 8:
		s = []string{"+1", "01", "1.", ".5", "0x10", "1_000", "--1", "-", "1e", "1e+", "NaN", "Inf", "-Inf", "１２", "1 2", "1,2", "12a", "1.5.5", "-00", "00", "- 1", "1e1.5", "\x00", "1\x00", "\v1", "1\f"}[r.Intn(26)]
	case 9:
		return strings.ToValidUTF8(string(nthWord(r.Intn(20000), []string{"0", "1", "9", "-", "+", ".", "e", "E", " ", "\t"})), "")
	default:
		s = genString(r)
	}
	if r.Intn(5) == 0 {
		s = []string{" ", "\t", "\n ", "\r\n", ""}[r.Intn(5)] + s + []string{" ", "\t\t", "\n", ""}[r.Intn(4)]
	}
	return strings.ToValidUTF8(s, "?")
}

func p11Tree(c *Case) *RV {
	g := histCfg(c)
	m := contTree(c, g)
	for _, x := range nodes(m, nil) {
		if x.K == kStr && c.R.Intn(2) == 0 {
			x.S = convString(c.R)
		}
	}
	return m
}

func p11Reads(c *Case) {
	r := c.R
	m := p11Tree(c)
	h := newHist(c, &genCfg{keys: append(allKeys(m), smallKeys...)}, m, r.Intn(3))
	b := snapshot(h)
	for n := 0; n < 24; n++ {
		h.bad = []int{0, 0, 10, 40}[r.Intn(4)]
		bm, bv, bdesc := h.base()
		ps := h.path(bm, 1+r.Intn(5))
		if r.Intn(30) == 0 {
			ps = nil
		}
		first, rest, how := spell(r, ps)
		want, e := mGet(bm, ps)
		if how != "list" && r.Intn(20) == 0 {
			rest = []any{[]any{"a", 0, nil}[r.Intn(3)]}
			e = eMulti
			how += " plus surplus parameter"
		}
		c.Note("%s; read from %s at %s as %s", h.init, bdesc, paramsString(ps), how)
		var tv []*jv.V
		if e == eNone {
			tv = []*jv.V{h.ptr[want]}
			c.Hit("found")
			if !want.isCont() {
				c.Hit("found_scalar")
			}
		} else {
			c.Hit(eNames[e])
		}
		checkGetters(c, bv, tv, want, e, first, rest)
		if e != eNone && n%4 == 0 {
			p02Inert(c, bv.MustGet(first, rest...))
		}
		c.Distinct(b.out, paramsString(ps))
		if c.Index < 4 && n < 2 {
			c.Sample("%s at %s -> %s", trunc(h.init, 200), paramsString(ps), eNames[e])
		}
	}
	h.log = append(h.log, "24 reads")
	h.unchangedBy(b, "reading")
}

// p11Mixed: reads of the same few members again and again, with edits in between. What a read remembers for the next
// one must not outlive the edit.
func p11Mixed(c *Case) {
	r := c.R
	c.f32ok = true
	var m *RV
	if r.Intn(2) == 0 {
		m = genWide(r, &genCfg{maxDepth: 2, maxKids: 3, nulls: 2}, 0)
	} else {
		m = genDoc(r, &genCfg{maxDepth: 3, maxKids: 5, nulls: 2})
	}
	g := &genCfg{keys: append(allKeys(m), smallKeys...), maxDepth: 2, maxKids: 3, nulls: 2}
	h := newHist(c, g, m, r.Intn(3))
	var paths [][]param
	for k := 2 + r.Intn(4); k > 0; k-- {
		h.bad = 10
		paths = append(paths, h.path(h.m, 1+r.Intn(2)))
	}
	reads := func(k int) {
		for ; k > 0; k-- {
			ps := paths[r.Intn(len(paths))]
			want, e := mGet(h.m, ps)
			first, rest, how := spell(r, ps)
			var tv []*jv.V
			if e == eNone {
				if h.ptr[want] == nil {
					continue
				}
				tv = []*jv.V{h.ptr[want]}
			}
			c.Note("%s; %d edits; read at %s as %s", h.init, len(h.log), paramsString(ps), how)
			checkGetters(c, h.v, tv, want, e, first, rest)
			c.Hit("reads_after_edits")
			c.Distinct(len(h.log), paramsString(ps), eNames[e], h.m.canonSeq())
		}
	}
	for n := 8 + r.Intn(12); n > 0; n-- {
		reads(1 + r.Intn(3))
		h.bad = 2
		if r.Intn(2) == 0 { // at one of the paths that are read, or above it
			ps := paths[r.Intn(len(paths))]
			h.forced = ps[:1+r.Intn(len(ps))]
		}
		h.edit([6]int{5, 2, 1, 2, 3, 4})
		h.forced = nil
		reads(1 + r.Intn(3))
		h.verify(r.Intn(2) == 0)
	}
}

func (h *Hist) unchangedBy(b before, what string) {
	r, _ := snap(h.v)
	if r == nil || r.canonSeq() != b.r.canonSeq() {
		h.fail("%s changed the document from %s", what, trunc(b.r.canonSeq(), 1000))
	}
	p := pointers(h.v)
	for k, x := range b.p {
		if p[k] != x {
			h.fail("%s replaced the node at %s", what, k)
		}
	}
	if out, err := h.v.Marshal(jv.OptSetSequence()); err != nil || string(out) != b.out {
		h.fail("%s changed the output from %s to %s (%v)", what, trunc(b.out, 500), trunc(string(out), 500), err)
	}
	h.c.Eval(1)
}

// p11Conversions: one scalar, every way to read it
func p11Conversions(c *Case) {
	r := c.R
	var t *RV
	switch r.Intn(5) {
	case 0:
		t = genScalar(r, &genCfg{nulls: 2, nonFinite: true})
	case 1:
		t = rNum(genNumText(r))
	default:
		t = rStr(convString(r))
	}
	how := 0
	if !t.nonFin() {
		how = r.Intn(2)
	}
	v := buildV(r, t, how)
	o := jv.NewObject()
	o.MustSet(v).At("k")
	a := jv.NewArray()
	a.MustAppend(o).InTheEnd()
	c.Note("scalar %s (built %d)", t.canonSeq(), how)
	checkGetters(c, o, []*jv.V{v}, t, eNone, "k", nil)
	checkGetters(c, a, []*jv.V{v}, t, eNone, -1, []any{"k"})
	// a read changes nothing: a second round gives the same
	checkGetters(c, a, []*jv.V{v}, t, eNone, []any{0, "k"}, nil)
	if d := diffV(v, t); d != "" {
		c.Fail("after the reads: %s", d)
	}
	// scalars have no members
	x, err := v.Get("k")
	if err == nil || x == nil || x.ValueType() != jv.NotExist {
		c.Fail("Get on a scalar gives %v, %v", x, err)
	}
	c.Distinct(t.canonSeq())
	if c.Index < 8 {
		c.Sample("%s", trunc(t.canonSeq(), 200))
	}
}

// p11Indexes: every index of every integer type around the ends of arrays
func p11Indexes(c *Case) {
	n := c.Index % 20
	m := &RV{K: kArr}
	for i := 0; i < n; i++ {
		m.A = append(m.A, numOf(i))
	}
	v := buildV(c.R, m, c.R.Intn(3))
	for i := -n - 3; i <= n+2; i++ {
		j := i
		if i < 0 {
			j += n
		}
		ok := j >= 0 && j < n
		for _, p := range []any{i, int8(i), int16(i), int32(i), int64(i), namedInt(i), namedI8(i), uint(i), uint8(i), uint16(i), uint32(i), uint64(i), uintptr(i), namedU16(i), []int{i}, []any{i}, []int64{int64(i)}, [1]int8{int8(i)}} {
			unsigned := false
			switch p.(type) {
			case uint, uint8, uint16, uint32, uint64, uintptr, namedU16:
				unsigned = true
			}
			if _, up := p.(uintptr); up {
				continue // whether a uintptr is an index is not specified
			}
			want := ok && !(unsigned && i < 0)
			c.Note("array of %d, index %T(%v)", n, p, p)
			x, err := v.Get(p)
			if want {
				if err != nil || x.Int() != j {
					c.Fail("gives %v, %v", x, err)
				}
			} else if !errors.Is(err, jv.ErrOutOfRange) || x.ValueType() != jv.NotExist {
				c.Fail("gives %v, %v, expected ErrOutOfRange", x, err)
			}
			if got, err := v.GetInt(p); want && (err != nil || got != j) || !want && (got != 0 || !errors.Is(err, jv.ErrOutOfRange)) {
				c.Fail("GetInt gives %v, %v", got, err)
			}
			c.Eval(2)
			c.Hit("index_types")
		}
		c.Distinct("index", n, i)
	}
	// unsigned values must not wrap around into negative or small indexes
	for _, u := range []uint64{1 << 63, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 1, -uint64(n), 1 << 32, 1<<32 + 1, 1 << 31, 1<<31 - 1, 1<<16 + 1<<32} {
		c.Note("array of %d, index uint64(%d)", n, u)
		if x, err := v.Get(u); u >= uint64(n) && !errors.Is(err, jv.ErrOutOfRange) {
			c.Fail("gives %v, %v, expected ErrOutOfRange", x, err)
		}
		c.Eval(1)
	}
}
