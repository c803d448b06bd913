package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P03",
		Rule: "number texts (all words over the number alphabet, integer and float boundaries, random decimals with up to hundreds of digits, near-halfway decimals) are read bare, in arrays, in objects and from strings; " +
			"every accessor is compared with exact arithmetic on the text, and the re-serialized text with the original; a case is non-trivial when the text is a valid number and distinct",
		Need: []string{"integers", "floats", "beyond_int64", "rejected_out_of_range", "rejected_grammar", "from_string", "halfway"},
		Suites: []Suite{
			{Name: "words", Quick: (wordCount(8, 6) + 1023) / 1024, Thorough: (wordCount(8, 7) + 1023) / 1024, Run: p03Words},
			{Name: "random", Quick: 750000, Thorough: 10000000, Run: p03Random},
			{Name: "ints", Quick: 240000, Thorough: 4000000, Run: p03Ints},
			{Name: "edges", Quick: 1, Thorough: 1, Run: p03Edges},
			{Name: "halfway", Quick: 40000, Thorough: 1000000, Run: p03Halfway},
		},
	})
}

// p03Number checks one valid number text in every position
func p03Number(c *Case, s string) {
	inRange := numberInRange(s)
	for i, text := range []string{s, " " + s + "\n", "[" + s + "]", `{"n":` + s + `}`, "[" + s + "," + s + "]", `{"n":` + s + `,"m":0}`} {
		v, err := jv.UnmarshalString(text)
		c.Eval(1)
		if !inRange {
			if err == nil {
				c.Fail("number out of range accepted in %q as %s", trunc(text, 300), v.String())
			}
			c.Hit("rejected_out_of_range")
			continue
		}
		if err != nil {
			c.Fail("valid number rejected in %q: %v", trunc(text, 300), err)
		}
		n := v
		switch i {
		case 2, 4:
			n = v.MustGet(i/2 - 1)
		case 3, 5:
			n = v.MustGet("n")
		}
		p03Accessors(c, n, s)
	}
	// the same text inside a JSON string converts to the same number
	sv := jv.NewString(s)
	o := jv.NewObject()
	o.MustSet(sv).At("s")
	f, err := o.GetFloat64("s")
	c.Hit("from_string")
	if inRange {
		want, _ := strconv.ParseFloat(s, 64)
		if f != want || !errors.Is(err, jv.ErrTypeNotMatch) {
			c.Fail("string %q converts to %v (error %v), want %v and a type mismatch", s, f, err, want)
		}
		if sv.Float64() != want {
			c.Fail("string %q: Float64 gives %v, want %v", s, sv.Float64(), want)
		}
		if !isFloatText(s) {
			p03IntValue(c, sv, s, "string ")
		}
	} else if f != 0 || !errors.Is(err, jv.ErrParseNumberFromString) {
		c.Fail("string %q out of range converts to %v (error %v)", s, f, err)
	}
}

func p03IntValue(c *Case, n *jv.V, s, what string) {
	x, _ := new(big.Int).SetString(s, 10)
	if x.IsInt64() {
		if n.Int64() != x.Int64() || n.Int() != int(x.Int64()) {
			c.Fail("%s%s: Int64 gives %d, Int gives %d", what, s, n.Int64(), n.Int())
		}
		if i := x.Int64(); i >= math.MinInt32 && i <= math.MaxInt32 && n.Int32() != int32(i) {
			c.Fail("%s%s: Int32 gives %d", what, s, n.Int32())
		}
	}
	if x.IsUint64() {
		if n.Uint64() != x.Uint64() || n.Uint() != uint(x.Uint64()) {
			c.Fail("%s%s: Uint64 gives %d, Uint gives %d", what, s, n.Uint64(), n.Uint())
		}
		if u := x.Uint64(); u <= math.MaxUint32 && n.Uint32() != uint32(u) {
			c.Fail("%s%s: Uint32 gives %d", what, s, n.Uint32())
		}
	}
}

// p03Accessors compares every accessor of n with exact arithmetic on its text s
func p03Accessors(c *Case, n *jv.V, s string) {
	if !n.IsNumber() || n.ValueType() != jv.Number {
		c.Fail("%s is read as %v", s, n.ValueType())
	}
	out, err := n.Marshal()
	if err != nil || string(out) != s {
		c.Fail("%s is written back as %s (error %v)", s, out, err)
	}
	if n.String() != s {
		c.Fail("%s: String gives %s", s, n.String())
	}
	f64, _ := strconv.ParseFloat(s, 64)
	if n.Float64() != f64 {
		c.Fail("%s: Float64 gives %v, want %v", s, n.Float64(), f64)
	}
	if n.Float32() != float32(f64) {
		c.Fail("%s: Float32 gives %v, want %v", s, n.Float32(), float32(f64))
	}
	isF := isFloatText(s)
	if n.IsFloat() != isF || n.IsInteger() == isF {
		c.Fail("%s: IsFloat %v, IsInteger %v", s, n.IsFloat(), n.IsInteger())
	}
	sign := ratSign(s)
	if sign > 0 && (n.IsNegative() || !n.IsPositive()) || sign < 0 && (!n.IsNegative() || n.IsPositive()) {
		if f64 != 0 { // a float text that underflows to zero has no sign to speak of
			c.Fail("%s: IsNegative %v, IsPositive %v", s, n.IsNegative(), n.IsPositive())
		}
	}
	if !isF {
		c.Hit("integers")
		p03IntValue(c, n, s, "")
		x, _ := new(big.Int).SetString(s, 10)
		big63 := x.Sign() > 0 && !x.IsInt64()
		if big63 {
			c.Hit("beyond_int64")
		}
		if n.GreaterThanInt64Max() != big63 {
			c.Fail("%s: GreaterThanInt64Max gives %v", s, n.GreaterThanInt64Max())
		}
	} else {
		c.Hit("floats")
		if n.GreaterThanInt64Max() {
			c.Fail("%s: GreaterThanInt64Max holds for a non-integer text", s)
		}
		// truncation towards zero when the truncated value fits
		if f64 > -9.2e18 && f64 < 9.2e18 {
			if n.Int64() != int64(f64) || n.Int() != int(f64) {
				c.Fail("%s: Int64 gives %d, want %d", s, n.Int64(), int64(f64))
			}
			if f64 > -2e9 && f64 < 2e9 && n.Int32() != int32(f64) {
				c.Fail("%s: Int32 gives %d", s, n.Int32())
			}
		}
		if f64 >= 0 && f64 < 1.8e19 {
			if n.Uint64() != uint64(f64) || n.Uint() != uint(f64) {
				c.Fail("%s: Uint64 gives %d, want %d", s, n.Uint64(), uint64(f64))
			}
			if f64 < 4e9 && n.Uint32() != uint32(f64) {
				c.Fail("%s: Uint32 gives %d", s, n.Uint32())
			}
		}
	}
}

func ratSign(s string) int {
	neg := s[0] == '-'
	for _, ch := range s {
		if ch == 'e' || ch == 'E' {
			break
		}
		if ch >= '1' && ch <= '9' {
			if neg {
				return -1
			}
			return 1
		}
	}
	return 0
}

func p03Words(c *Case) {
	for i := 0; i < 1024; i++ {
		w := string(nthWord(c.Index*1024+i, []string{"0", "1", "9", "-", "+", ".", "e", "E"}))
		c.Note("number %q", w)
		if validNumberText(w) {
			p03Number(c, w)
			c.Distinct(w)
			continue
		}
		c.Hit("rejected_grammar")
		for _, t := range []string{w, "[" + w + "]", `{"n":` + w + `}`} {
			if w == "" && t != w {
				continue
			}
			if _, err := jv.UnmarshalString(t); err == nil {
				if r := refParse([]byte(t), true); !r.ok {
					c.Fail("%q is not a number but is accepted in %q", w, t)
				}
			}
			c.Eval(1)
		}
		if _, err := jv.NewArray().Append(w).InTheEnd(); err != nil {
			c.Fail("append of string %q: %v", w, err)
		}
		if n := jv.NewString(w); n.Float64() != 0 || n.Int64() != 0 || n.Uint64() != 0 {
			c.Fail("string %q, not a number, converts to %v", w, n.Float64())
		}
	}
}

// longNumber is a number in range, written with hundreds or thousands of digits
func longNumber(r *rand.Rand) string {
	n, m := r.Intn(1<<uint(2+r.Intn(11))), 1+r.Intn(1<<uint(2+r.Intn(11)))
	for {
		s := []string{"", "-"}[r.Intn(2)]
		switch r.Intn(4) {
		case 0: // many digits before the point, brought down by the exponent
			s += string(byte('1'+r.Intn(9))) + genDigits(r, n)
			if r.Intn(2) == 0 {
				s += "." + genDigits(r, m)
			}
			s += []string{"e-", "E-"}[r.Intn(2)] + strconv.Itoa(max(0, n+r.Intn(300)-200))
		case 1: // zeros after the point, brought up by the exponent
			s += "0." + strings.Repeat("0", n) + genDigits(r, m) + []string{"e", "e+"}[r.Intn(2)] + strconv.Itoa(max(0, n+r.Intn(300)-200))
		case 2: // a long fraction
			s += strconv.Itoa(r.Intn(1000)) + "." + genDigits(r, n) + strings.Repeat("0", m)
		default: // an integer with a fraction of zeros, or zeros in the exponent
			s += strconv.FormatUint(r.Uint64()>>uint(r.Intn(64)), 10) + []string{"." + strings.Repeat("0", m), "e" + strings.Repeat("0", m), "e-" + strings.Repeat("0", m)}[r.Intn(3)]
		}
		if validNumberText(s) && numberInRange(s) {
			return s
		}
		n, m = n/2, m/2+1
	}
}

func p03Random(c *Case) {
	var s string
	if c.R.Intn(12) == 0 {
		s = hugeNumbers[c.R.Intn(len(hugeNumbers))]
	} else if c.R.Intn(60) == 0 {
		s = longNumber(c.R)
		c.Hit("long_numbers")
	} else {
		s = genNumText(c.R)
	}
	c.Note("number %q", s)
	p03Number(c, s)
	c.Distinct(s)
	if c.Index < 40 {
		c.Sample("%s", s)
	}
}

// p03Ints: integers around the 64-bit boundaries and of 18 to 22 digits
func p03Ints(c *Case) {
	var x *big.Int
	switch c.R.Intn(4) {
	case 0:
		x = new(big.Int).Lsh(big.NewInt(1), uint(c.R.Intn(70)))
		x.Add(x, big.NewInt(int64(c.R.Intn(21)-10)))
	case 1:
		x, _ = new(big.Int).SetString(string(byte('1'+c.R.Intn(9)))+genDigits(c.R, 17+c.R.Intn(5)), 10)
	case 2:
		x = new(big.Int).SetUint64(c.R.Uint64() >> uint(c.R.Intn(64)))
	default: // near multiples of 2^64, which wrap around
		x = new(big.Int).Mul(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(int64(1+c.R.Intn(12))))
		x.Add(x, big.NewInt(int64(c.R.Intn(2001)-1000)))
	}
	if c.R.Intn(2) == 0 {
		x.Neg(x)
	}
	s := x.String()
	switch c.R.Intn(6) {
	case 0:
		s += ".0"
	case 1:
		s += "e0"
	case 2:
		s += "." + genDigits(c.R, 1+c.R.Intn(5))
	}
	c.Note("number %q", s)
	p03Number(c, s)
	c.Distinct(s)
}

func p03Edges(c *Case) {
	for _, s := range append(append([]string{}, edgeNumbers...), hugeNumbers...) {
		c.Note("number %q", s)
		p03Number(c, s)
		c.Distinct(s)
	}
	// values of Go number types, written and read back
	for _, f := range []float64{0, 1, -1, 0.1, 1e20, 1e21, 1e22, 123456789012345680000, 1e-6, 1e-7, 9.999e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, math.MaxInt64, math.MaxUint64, -math.MaxInt64} {
		b, _ := json.Marshal(f)
		v := jv.NewFloat64(f)
		if v.Float64() != f || v.MustMarshalString() != string(b) {
			c.Fail("NewFloat64(%v) holds %v, written as %s, want %s", f, v.Float64(), v.MustMarshalString(), b)
		}
	}
	c.Sample("%d boundary texts", len(edgeNumbers)+len(hugeNumbers))
}

// p03Halfway: decimals half way between two floats, and next to that, are rounded correctly
func p03Halfway(c *Case) {
	f := math.Abs(math.Float64frombits(c.R.Uint64()))
	if c.R.Intn(2) == 0 {
		f = c.R.Float64() * math.Pow(10, float64(c.R.Intn(40)-20))
	}
	g := math.Nextafter(f, math.Inf(1))
	if math.IsNaN(f) || math.IsInf(g, 0) || f > 1e200 || f < 1e-200 {
		return
	}
	m := new(big.Float).SetPrec(2000).SetFloat64(f)
	m.Add(m, new(big.Float).SetPrec(2000).SetFloat64(g)).Quo(m, big.NewFloat(2))
	s := m.Text('f', 700)
	if validNumberText(s) && len(s) < 1500 {
		s = trimZeros(s)
		for _, t := range []string{s, s + "1", s[:len(s)-1] + "4"} {
			if !validNumberText(t) || !isFloatText(t) || !numberInRange(t) {
				continue
			}
			c.Note("number %q", t)
			p03Number(c, t)
			c.Hit("halfway")
		}
		c.Distinct(s)
	}
}

func trimZeros(s string) string {
	n := len(s)
	for n > 2 && s[n-1] == '0' && s[n-2] != '.' {
		n--
	}
	return s[:n]
}

var _ = fmt.Sprint
